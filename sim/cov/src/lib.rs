//! The clock of the code under test. The compiler calls in here at every
//! basic block (and, for the interleaving runs, at every load and store) of
//! crevice and of the generic code monomorphised for the simulator. This crate
//! is itself not instrumented.
//!
//! Points are counted per thread and only while counting is switched on, that
//! is: inside calls into crevice and not in the sinks and callbacks that
//! crevice calls. At a chosen count the hook runs.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static N: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
}
static HOOK: AtomicUsize = AtomicUsize::new(0);
/// Set: the hook runs at every point of every counting thread.
pub static ATTENTION: AtomicBool = AtomicBool::new(false);

#[inline(always)]
fn point() {
    if ON.with(|o| o.get()) {
        let n = N.with(|c| {
            let n = c.get() + 1;
            c.set(n);
            n
        });
        if n >= NEXT.with(|c| c.get()) || ATTENTION.load(Relaxed) {
            hook(n)
        }
    }
}

#[cold]
#[inline(never)]
fn hook(n: u64) {
    let p = HOOK.load(Relaxed);
    if p != 0 {
        let f: fn(u64) = unsafe { std::mem::transmute(p) };
        ON.with(|o| o.set(false));
        f(n);
        ON.with(|o| o.set(true));
    }
}

pub fn set_hook(f: fn(u64)) {
    HOOK.store(f as usize, Relaxed);
}

/// Points this thread has passed while counting.
pub fn count() -> u64 {
    N.with(|c| c.get())
}

pub fn reset() {
    N.with(|c| c.set(0));
    NEXT.with(|c| c.set(u64::MAX));
}

/// The hook runs at the next point at or after this count.
pub fn set_next(n: u64) {
    NEXT.with(|c| c.set(n));
}

/// Counting on or off until the guard is dropped.
pub struct Switch(bool);
pub fn switch(on: bool) -> Switch {
    Switch(ON.with(|o| o.replace(on)))
}
impl Drop for Switch {
    fn drop(&mut self) {
        let b = self.0;
        ON.with(|o| o.set(b));
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    point()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(_: *mut u8) {
            point()
        }
    )* };
}
accesses!(
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4
    __sanitizer_cov_load8 __sanitizer_cov_load16 __sanitizer_cov_store1
    __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8
    __sanitizer_cov_store16
);
