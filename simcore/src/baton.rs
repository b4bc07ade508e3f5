//! Baton scheduler: real threads, exactly one of which runs at a time; who runs next is
//! decided by the tape at every yield point. A task is either runnable or blocked on a
//! condition that other tasks may make true.
use crate::{Ctx, Violation};
use std::sync::{Arc, Condvar, Mutex};

pub struct Sched {
    inner: Mutex<Inner>,
    cv: Condvar,
}
struct Inner {
    ctx: Option<Ctx>,
    running: Option<usize>,
    /// None: finished. Some(false): blocked. Some(true): runnable
    tasks: Vec<Option<bool>>,
    steps: u64,
    /// kernel thread id of each task
    tids: Vec<u64>,
    max_steps: u64,
    poisoned: Option<Violation>,
    done: bool,
}

/// Thrown (as a panic payload) to unwind tasks after a deadlock or step overrun.
pub struct Abort;

/// exit code of a simulation process in which the code under test blocked for real
pub const STUCK_EXIT: i32 = 77;

fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|x| x.parse().ok())))
        .unwrap_or(0)
}
fn sleeping(tid: u64) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| s.rsplit(')').next().map(|r| r.trim_start().starts_with('S')))
        .unwrap_or(false)
}

#[derive(Clone)]
pub struct Task {
    pub s: Arc<Sched>,
    pub id: usize,
}

impl Sched {
    /// Runs the tasks to completion under the schedule drawn from ctx.tape.
    pub fn run(
        ctx: Ctx,
        max_steps: u64,
        tasks: Vec<Box<dyn FnOnce(Task) + Send>>,
    ) -> (Ctx, Result<(), Violation>) {
        let n = tasks.len();
        let s = Arc::new(Sched {
            inner: Mutex::new(Inner {
                ctx: Some(ctx),
                running: None,
                tasks: vec![Some(true); n],
                steps: 0,
                tids: vec![0; n],
                max_steps,
                poisoned: None,
                done: n == 0,
            }),
            cv: Condvar::new(),
        });
        let mut hs = vec![];
        for (id, f) in tasks.into_iter().enumerate() {
            let t = Task { s: s.clone(), id };
            hs.push(
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || {
                        t.s.inner.lock().unwrap().tids[t.id] = own_tid();
                        t.wait_turn();
                        let t2 = t.clone();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(t2)));
                        crate::alloc::disarm();
                        t.finish(r.err());
                    })
                    .unwrap(),
            );
        }
        {
            let mut g = s.inner.lock().unwrap();
            Sched::pick(&mut g);
            s.cv.notify_all();
            let (mut last, mut asleep) = (u64::MAX, 0);
            while !g.done {
                let (g2, to) = s.cv.wait_timeout(g, std::time::Duration::from_millis(100)).unwrap();
                g = g2;
                if !to.timed_out() {
                    continue;
                }
                // The task holding the baton never waits on the simulator. Asleep in the kernel over
                // many samples, within one scheduling step, means the code under test blocks on a
                // real lock or channel that only a task without the baton can release: in a
                // deployment that is one connection blocking another.
                let tid = g.running.map(|r| g.tids[r]).unwrap_or(0);
                if g.steps == last && tid != 0 && sleeping(tid) {
                    asleep += 1;
                } else {
                    asleep = 0;
                    last = g.steps;
                }
                if asleep >= 15 {
                    std::process::exit(STUCK_EXIT);
                }
            }
        }
        for h in hs {
            let _ = h.join();
        }
        let mut g = s.inner.lock().unwrap();
        let ctx = g.ctx.take().unwrap();
        let v = g.poisoned.take();
        (ctx, match v { Some(v) => Err(v), None => Ok(()) })
    }

    fn pick(g: &mut Inner) {
        let runnable: Vec<usize> =
            (0..g.tasks.len()).filter(|i| g.tasks[*i] == Some(true)).collect();
        if g.poisoned.is_some() {
            // unwind everybody, in order
            let next = (0..g.tasks.len()).find(|i| g.tasks[*i].is_some());
            g.running = next;
            g.done = next.is_none();
            return;
        }
        if runnable.is_empty() {
            if g.tasks.iter().all(|t| t.is_none()) {
                g.running = None;
                g.done = true;
            } else {
                g.poisoned = Some(Violation::new(
                    "deadlock",
                    format!("no task can run; blocked: {:?}",
                        (0..g.tasks.len()).filter(|i| g.tasks[*i] == Some(false)).collect::<Vec<_>>()),
                ));
                Sched::pick(g);
            }
            return;
        }
        g.steps += 1;
        if g.steps > g.max_steps {
            g.poisoned = Some(Violation::new("no-progress", format!("more than {} scheduling steps", g.max_steps)));
            Sched::pick(g);
            return;
        }
        let ctx = g.ctx.as_mut().unwrap();
        let k = if runnable.len() == 1 { 0 } else { ctx.tape.draw(runnable.len() as u64) as usize };
        let id = runnable[k];
        ctx.sched_event(1, id as u64);
        g.running = Some(id);
    }
}

impl Task {
    fn wait_turn(&self) {
        let mut g = self.s.inner.lock().unwrap();
        while g.running != Some(self.id) {
            g = self.s.cv.wait(g).unwrap();
        }
    }
    fn finish(&self, panic: Option<Box<dyn std::any::Any + Send>>) {
        let mut g = self.s.inner.lock().unwrap();
        g.tasks[self.id] = None;
        if let Some(p) = panic {
            if !p.is::<Abort>() && g.poisoned.is_none() {
                let m = crate::runner::panic_msg(&p);
                g.poisoned = Some(Violation::new("panic", format!("task {}: {m}", self.id)));
            }
        }
        Sched::pick(&mut g);
        self.s.cv.notify_all();
    }
    /// access to the run context (tape, log, counters) while holding the baton
    pub fn with<T>(&self, f: impl FnOnce(&mut Ctx) -> T) -> T {
        let mut g = self.s.inner.lock().unwrap();
        f(g.ctx.as_mut().unwrap())
    }
    fn switch(&self, runnable: bool) {
        let mut g = self.s.inner.lock().unwrap();
        g.tasks[self.id] = Some(runnable);
        Sched::pick(&mut g);
        self.s.cv.notify_all();
        while g.running != Some(self.id) {
            g = self.s.cv.wait(g).unwrap();
        }
        g.tasks[self.id] = Some(true);
        if g.poisoned.is_some() {
            drop(g);
            std::panic::panic_any(Abort);
        }
    }
    pub fn yield_now(&self) {
        self.switch(true)
    }
    /// Blocks until another task calls `wake(self.id)`.
    pub fn block(&self) {
        self.switch(false)
    }
    pub fn wake(&self, id: usize) {
        let mut g = self.s.inner.lock().unwrap();
        if g.tasks[id].is_some() {
            g.tasks[id] = Some(true);
        }
    }
    pub fn fail(&self, v: Violation) -> ! {
        let mut g = self.s.inner.lock().unwrap();
        if g.poisoned.is_none() {
            g.poisoned = Some(v);
        }
        drop(g);
        std::panic::panic_any(Abort)
    }
}
