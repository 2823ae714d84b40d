//! Simulated operating system: the seam between the library under test and everything nondeterministic.
//!
//! * `hooks`  – libc symbols interposed in the harness executable. While a thread is inside a simulated region
//!   (`enter`), file, stream, clock, entropy and thread calls are served here; otherwise they go to the kernel.
//! * `sched`  – real threads parked and released one at a time; preemption only at yield points the plan names.
//! * `world`  – in-memory file system and streams, fault injection, event log, draw source.
//! * `alloc`  – global allocator: yield point and memory budget.
#![allow(static_mut_refs, invalid_runtime_symbol_definitions, unknown_lints)]
pub mod alloc;
pub mod hooks;
pub mod raw;
pub mod sched;
pub mod world;

use std::cell::Cell;

thread_local! {
    static IN: Cell<bool> = const { Cell::new(false) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// The calling thread runs library code under simulation right now.
#[inline(always)]
pub fn active() -> bool {
    IN.with(|i| i.get()) && !BUSY.with(|b| b.get())
}

/// Run simulator code: hooks pass through meanwhile.
#[inline]
pub(crate) fn busy<R>(f: impl FnOnce() -> R) -> R {
    let old = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|b| b.set(old));
    r
}

pub(crate) fn set_in(on: bool) -> bool {
    IN.with(|i| i.replace(on))
}

/// Temporarily leave the simulated region (a harness callback invoked by library code).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            set_in(self.0);
        }
    }
    let _r = Reset(set_in(false));
    f()
}

/// Run one operation of the library under simulation, as operation `op` with the given environment plan.
/// Panics are caught and returned as their message.
pub fn enter<R>(op: u32, cfg: &world::OpCfg, f: impl FnOnce() -> R) -> Result<R, String> {
    world::op_begin(op, cfg);
    let old = set_in(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    set_in(old);
    world::op_end();
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// Called when a run cannot continue (budget, deadlock): report and leave the process.
pub static mut FATAL: Option<fn(&str) -> !> = None;

pub(crate) fn fatal(msg: &str) -> ! {
    set_in(false);
    unsafe {
        if let Some(f) = FATAL {
            f(msg)
        }
    }
    raw::exit_group(97)
}
