//! Direct system calls, used for pass-through and by the scheduler (never intercepted).
use core::arch::asm;

#[inline(always)]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// Kernel result to libc convention.
#[inline]
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        sys6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sys6(libc::SYS_futex, addr as i64, 128, val as i64, 0, 0, 0); // FUTEX_WAIT_PRIVATE
}

pub unsafe fn futex_wake(addr: *const u32) {
    sys6(libc::SYS_futex, addr as i64, 129, 1, 0, 0, 0); // FUTEX_WAKE_PRIVATE
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sys6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r <= 0 {
            if r == -(libc::EINTR as i64) {
                continue;
            }
            return;
        }
        b = &b[r as usize..];
    }
}
