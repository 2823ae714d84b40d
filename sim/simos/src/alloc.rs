//! Global allocator: every allocation of simulated code is a yield point and is charged to a memory budget.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;
pub static mut LIVE: i64 = 0;
pub static mut MEM_LIMIT: i64 = 1 << 30;

#[inline(always)]
fn charge(n: i64) {
    if crate::active() {
        unsafe {
            LIVE += n;
            if LIVE > MEM_LIMIT {
                crate::fatal("memory budget exceeded");
            }
        }
        if n > 0 {
            crate::sched::tick();
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        charge(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        charge(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
