//! Deterministic scheduler: exactly one simulated thread runs at a time; the preemption plan decides who.
use crate::raw;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 32;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Unused,
    Ready,
    Futex(usize),
    Join(usize),
    Done,
}

pub struct Thread {
    pub st: St,
    pub timed: bool,
    pub timed_out: bool,
}

static BATON: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
pub static mut THREADS: [Thread; MAXT] = [const { Thread { st: St::Unused, timed: false, timed_out: false } }; MAXT];
pub static mut CUR: usize = 0;
pub static mut NTHREADS: usize = 1;

/// yield points passed so far
pub static mut YIELDS: u64 = 0;
static mut NEXT_AT: u64 = u64::MAX;
static mut NEXT_IX: usize = 0;
static mut PLAN: Vec<(u64, u8)> = Vec::new();
pub static mut SWITCHES: u64 = 0;
/// yield indices at which a system call, draw or thread event happened (for placing preemptions)
pub static mut MARKS: Vec<u64> = Vec::new();

pub static mut COV: *mut u8 = core::ptr::null_mut();
pub static mut COV_N: usize = 0;
pub const COV_MAX: usize = 1 << 16;
static mut GUARDS: u32 = 0;

pub fn reset(plan: Vec<(u64, u8)>) {
    unsafe {
        YIELDS = 0;
        PLAN = plan;
        NEXT_IX = 0;
        NEXT_AT = PLAN.first().map(|p| p.0).unwrap_or(u64::MAX);
        SWITCHES = 0;
        CUR = 0;
        NTHREADS = 1;
        MARKS = Vec::with_capacity(1 << 14);
        for t in THREADS.iter_mut() {
            t.st = St::Unused;
        }
        THREADS[0].st = St::Ready;
    }
}

/// One step of library code (basic block or allocation).
#[inline(always)]
pub fn tick() {
    unsafe {
        let c = &mut crate::world::CTX[CUR];
        c.steps += 1;
        if c.steps > c.step_limit {
            crate::fatal("step budget exceeded (no progress)");
        }
        YIELDS += 1;
        if YIELDS >= NEXT_AT {
            crate::busy(preempt);
        }
    }
}

/// A yield point at an intercepted call.
pub fn yield_point() {
    unsafe {
        if MARKS.len() < MARKS.capacity() {
            MARKS.push(YIELDS + 1);
        }
    }
    tick_busy();
}

fn tick_busy() {
    unsafe {
        let c = &mut crate::world::CTX[CUR];
        c.steps += 1;
        if c.steps > c.step_limit {
            crate::fatal("step budget exceeded (no progress)");
        }
        YIELDS += 1;
        if YIELDS >= NEXT_AT {
            preempt();
        }
    }
}

#[cold]
#[inline(never)]
fn preempt() {
    unsafe {
        let want = PLAN[NEXT_IX].1 as usize;
        NEXT_IX += 1;
        NEXT_AT = PLAN.get(NEXT_IX).map(|p| p.0).unwrap_or(u64::MAX);
        if NEXT_AT <= YIELDS {
            NEXT_AT = YIELDS + 1;
        }
        // `want` names a rotation: the want-th other ready thread
        let n = NTHREADS;
        let ready: Vec<usize> = (1..n).map(|d| (CUR + d) % n).filter(|&t| THREADS[t].st == St::Ready).collect();
        if ready.is_empty() {
            return;
        }
        switch_to(ready[want % ready.len()]);
    }
}

unsafe fn wait_baton(me: usize) {
    while BATON[me].swap(0, Ordering::SeqCst) == 0 {
        raw::futex_wait(BATON[me].as_ptr(), 0);
    }
}

unsafe fn give(to: usize) {
    BATON[to].store(1, Ordering::SeqCst);
    raw::futex_wake(BATON[to].as_ptr());
}

unsafe fn switch_to(to: usize) {
    let me = CUR;
    if to == me {
        return;
    }
    SWITCHES += 1;
    crate::world::log_event(b's', me as u64, to as u64, 0);
    CUR = to;
    give(to);
    wait_baton(me);
}

/// The current thread cannot continue: run another one (or fail if none can).
unsafe fn block_current() {
    let me = CUR;
    let n = NTHREADS;
    if let Some(to) = (1..n).map(|d| (me + d) % n).find(|&t| THREADS[t].st == St::Ready) {
        switch_to(to);
        return;
    }
    // nothing ready: a timed wait may expire (simulated time jumps)
    if let Some(to) = (0..n).find(|&t| THREADS[t].timed && matches!(THREADS[t].st, St::Futex(_))) {
        THREADS[to].st = St::Ready;
        THREADS[to].timed_out = true;
        crate::world::advance_clock(1_000_000_000);
        switch_to(to);
        return;
    }
    crate::fatal("deadlock: no thread can run");
}

pub unsafe fn futex_wait(addr: usize, timed: bool) -> bool {
    let me = CUR;
    THREADS[me].st = St::Futex(addr);
    THREADS[me].timed = timed;
    THREADS[me].timed_out = false;
    while THREADS[me].st != St::Ready {
        block_current();
    }
    THREADS[me].timed = false;
    THREADS[me].timed_out
}

pub unsafe fn futex_wake(addr: usize, n: i64) -> i64 {
    let mut woken = 0;
    for t in 0..NTHREADS {
        if woken < n && THREADS[t].st == St::Futex(addr) {
            THREADS[t].st = St::Ready;
            woken += 1;
        }
    }
    woken
}

/// Register a new simulated thread (ready, not running).
pub fn new_thread() -> usize {
    unsafe {
        let t = NTHREADS;
        if t >= MAXT {
            crate::fatal("too many threads");
        }
        NTHREADS += 1;
        THREADS[t].st = St::Ready;
        t
    }
}

/// First thing a simulated thread does.
pub fn thread_begin(t: usize) {
    unsafe { wait_baton(t) }
}

/// Last thing a simulated thread does: hand over.
pub fn thread_end(t: usize) {
    unsafe {
        THREADS[t].st = St::Done;
        let n = NTHREADS;
        for i in 0..n {
            if THREADS[i].st == St::Join(t) {
                THREADS[i].st = St::Ready;
            }
        }
        if let Some(to) = (1..n).map(|d| (t + d) % n).find(|&x| THREADS[x].st == St::Ready) {
            CUR = to;
            crate::world::log_event(b'e', t as u64, to as u64, 0);
            give(to);
        } else if (0..n).any(|x| !matches!(THREADS[x].st, St::Done | St::Unused)) {
            if let Some(to) = (0..n).find(|&x| THREADS[x].timed && matches!(THREADS[x].st, St::Futex(_))) {
                THREADS[to].st = St::Ready;
                THREADS[to].timed_out = true;
                CUR = to;
                give(to);
            } else {
                crate::fatal("deadlock: no thread can run");
            }
        }
    }
}

/// Wait (simulated) for another simulated thread to finish.
pub fn join(t: usize) {
    unsafe {
        let me = CUR;
        while THREADS[t].st != St::Done {
            THREADS[me].st = St::Join(t);
            block_current();
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !crate::IN.with(|i| i.get()) {
        return;
    }
    unsafe {
        if !COV.is_null() {
            let id = *g as usize;
            if id < COV_MAX {
                *COV.add(id) = 1;
            }
        }
    }
    if !crate::BUSY.with(|b| b.get()) {
        tick();
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        if start == stop || *start != 0 {
            return;
        }
        while p < stop {
            GUARDS += 1;
            *p = GUARDS;
            p = p.add(1);
        }
        COV_N = GUARDS as usize + 1;
    }
}
