//! A single-threaded executor whose every choice (which task runs next, spurious wake-ups, simulated
//! delays) is drawn from the run's tape. Time is simulated and moves only when nothing can run.
use simcore::Ctx;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

thread_local! {
    /// the run whose task is being polled
    static CURRENT: std::cell::Cell<Option<*mut Ctx>> = const { std::cell::Cell::new(None) };
}
/// tokio's own choices (the first branch that a select! looks at) are the scheduler's
fn tokio_rand(n: u32) -> u32 {
    match CURRENT.get() {
        Some(c) => unsafe { (*c).tape.draw(n as u64) as u32 },
        None => 0,
    }
}

/// the order in which hashbrown's maps are gone through
fn hash_seed() -> u64 {
    match CURRENT.get() {
        Some(c) => unsafe { (*c).tape.draw(64) },
        None => 0,
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Task {
    name: String,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
    panicked: Option<String>,
}

#[derive(Default)]
struct Shared {
    now: u64,
    seq: u64,
    timers: BTreeMap<(u64, u64), Waker>,
    spawned: Vec<(String, Pin<Box<dyn Future<Output = ()>>>)>,
}

/// Handle to the run: the tape, the clock, spawning. Cheap to clone; lives as long as the run.
#[derive(Clone)]
pub struct Sim {
    ctx: *mut Ctx,
    sh: Rc<RefCell<Shared>>,
}
impl Sim {
    pub fn new(ctx: &mut Ctx) -> Self {
        Sim { ctx, sh: Rc::default() }
    }
    #[allow(clippy::mut_from_ref)]
    fn c(&self) -> &mut Ctx {
        // the simulation is single-threaded and no borrow of the context outlives one call below
        unsafe { &mut *self.ctx }
    }
    pub fn draw(&self, n: u64) -> u64 {
        self.c().tape.draw(n)
    }
    pub fn chance(&self, a: u64, b: u64) -> bool {
        self.c().tape.chance(a, b)
    }
    pub fn range(&self, a: u64, b: u64) -> u64 {
        self.c().tape.range(a, b)
    }
    pub fn event(&self, s: impl FnOnce() -> String) {
        self.c().event(s)
    }
    pub fn fault(&self, s: &str) {
        self.c().fault(s)
    }
    pub fn probe(&self, s: &str) {
        self.c().probe(s)
    }
    pub fn nontrivial(&self) {
        self.c().nontrivial = true
    }
    pub fn now(&self) -> u64 {
        self.sh.borrow().now
    }
    pub fn spawn(&self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) {
        self.sh.borrow_mut().spawned.push((name.into(), Box::pin(f)));
    }
    pub fn sleep(&self, us: u64) -> Sleep {
        Sleep { sh: self.sh.clone(), at: self.now() + us, key: None }
    }
    /// waits a drawn while: not at all, a few turns of the scheduler, or simulated time
    pub async fn pause(&self) {
        match self.draw(4) {
            0 => {}
            1 => {
                for _ in 0..self.range(1, 3) {
                    YieldNow(false).await
                }
            }
            _ => {
                let d = self.range(1, 200);
                self.sleep(d).await
            }
        }
    }
}

pub struct YieldNow(pub bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
pub struct Sleep {
    sh: Rc<RefCell<Shared>>,
    at: u64,
    key: Option<(u64, u64)>,
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let sh = self.sh.clone();
        let mut s = sh.borrow_mut();
        if s.now >= self.at {
            return Poll::Ready(());
        }
        let k = match self.key {
            Some(k) => k,
            None => {
                s.seq += 1;
                (self.at, s.seq)
            }
        };
        self.key = Some(k);
        s.timers.insert(k, cx.waker().clone());
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key {
            // the waker is dropped outside the borrow
            let w = self.sh.borrow_mut().timers.remove(&k);
            drop(w);
        }
    }
}

pub enum End {
    /// every task finished, or only those whose name starts with `idle` are left, waiting
    Done,
    /// nothing can run any more, these tasks wait for ever
    Stuck(Vec<String>),
    TooLong,
    Panic(String, String),
}

pub struct Exec {
    pub sim: Sim,
    tasks: Vec<Task>,
    pub limit: u64,
    spent: u64,
}
impl Exec {
    pub fn new(sim: &Sim, limit: u64) -> Self {
        Exec { sim: sim.clone(), tasks: vec![], limit, spent: 0 }
    }
    pub fn kill(&mut self, name: &str) {
        for t in &mut self.tasks {
            if t.name == name {
                t.fut = None;
            }
        }
    }
    pub fn alive(&self, name: &str) -> bool {
        self.tasks.iter().any(|t| t.name == name && t.fut.is_some())
    }
    fn take_spawned(&mut self) {
        let s = std::mem::take(&mut self.sim.sh.borrow_mut().spawned);
        for (name, f) in s {
            self.tasks.push(Task { name, fut: Some(f), flag: Arc::new(Flag(AtomicBool::new(true))), panicked: None });
        }
    }
    /// Runs until nothing is left to do or `stop` (asked before every step) says so.
    pub fn run(&mut self, mut stop: impl FnMut() -> bool) -> End {
        let _ = tokio::macros::support::SIM_RAND.set(tokio_rand);
        let _ = hashbrown::SIM_SEED.set(hash_seed);
        loop {
            CURRENT.set(None);
            self.take_spawned();
            if stop() {
                return End::Done;
            }
            self.spent += 1;
            if self.spent > self.limit {
                return End::TooLong;
            }
            let live: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].fut.is_some()).collect();
            let ready: Vec<usize> = live.iter().copied().filter(|i| self.tasks[*i].flag.0.load(Ordering::SeqCst)).collect();
            let i = if ready.is_empty() {
                let mut sh = self.sim.sh.borrow_mut();
                match sh.timers.keys().next().copied() {
                    Some(k) => {
                        let w = sh.timers.remove(&k).unwrap();
                        let dt = k.0.saturating_sub(sh.now);
                        sh.now = sh.now.max(k.0);
                        drop(sh);
                        self.sim.c().sim_time_us += dt;
                        w.wake();
                        continue;
                    }
                    None => {
                        drop(sh);
                        let left: Vec<String> = live.iter().map(|i| self.tasks[*i].name.clone()).filter(|n| !n.starts_with("idle")).collect();
                        return if left.is_empty() { End::Done } else { End::Stuck(left) };
                    }
                }
            } else if self.sim.chance(1, 24) {
                self.sim.probe("spurious-poll");
                live[self.sim.draw(live.len() as u64) as usize]
            } else {
                ready[self.sim.draw(ready.len() as u64) as usize]
            };
            let c = self.sim.c();
            c.sched_event(i as u64, ready.len() as u64);
            if ready.len() > 1 {
                c.nontrivial = true;
            }
            let t = &mut self.tasks[i];
            t.flag.0.store(false, Ordering::SeqCst);
            let w = Waker::from(t.flag.clone());
            let mut cx = Context::from_waker(&w);
            let mut f = t.fut.take().unwrap();
            CURRENT.set(Some(self.sim.ctx));
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut cx))) {
                Ok(Poll::Ready(())) => {}
                Ok(Poll::Pending) => self.tasks[i].fut = Some(f),
                Err(p) => {
                    let m = simcore::runner::panic_msg(&p);
                    self.tasks[i].panicked = Some(m.clone());
                    return End::Panic(self.tasks[i].name.clone(), m);
                }
            }
        }
    }
}
