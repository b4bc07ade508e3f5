//! Allocation seam: counts live bytes and the peak per thread while armed, and refuses
//! requests beyond a cap, so that "memory bounded by the bytes received" is observable.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn on_alloc(n: usize) -> bool {
    ARMED
        .try_with(|a| {
            if !a.get() {
                return true;
            }
            let l = LIVE.with(|l| {
                let v = l.get().saturating_add(n.min(i64::MAX as usize) as i64);
                l.set(v);
                v
            });
            COUNT.with(|c| c.set(c.get() + 1));
            PEAK.with(|p| {
                if l > p.get() {
                    p.set(l)
                }
            });
            if l > CAP.with(|c| c.get()) {
                LIVE.with(|x| x.set(x.get() - n as i64));
                false
            } else {
                true
            }
        })
        .unwrap_or(true)
}
fn on_free(n: usize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            LIVE.with(|l| l.set(l.get() - n as i64));
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on_alloc(l.size()) { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if on_alloc(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // old and new block coexist in the worst case
        if !on_alloc(new) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, new);
        if r.is_null() { on_free(new) } else { on_free(l.size()) }
        r
    }
}

/// run `f` with allocation counting on; returns (result, peak bytes above the start, number of allocations)
pub fn measured<T>(cap: i64, f: impl FnOnce() -> T) -> (T, i64, u64) {
    ARMED.with(|a| a.set(true));
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    COUNT.with(|c| c.set(0));
    CAP.with(|c| c.set(cap));
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
        }
    }
    let d = D;
    let r = f();
    drop(d);
    (r, PEAK.with(|p| p.get()), COUNT.with(|c| c.get()))
}
pub fn disarm() {
    ARMED.with(|a| a.set(false));
}
/// run harness code called from inside a measured section without counting it
pub fn paused<T>(f: impl FnOnce() -> T) -> T {
    let was = ARMED.with(|a| a.replace(false));
    struct D(bool);
    impl Drop for D {
        fn drop(&mut self) {
            let _ = ARMED.try_with(|a| a.set(self.0));
        }
    }
    let _d = D(was);
    f()
}
