//! libc symbols interposed in the harness executable.
use crate::raw::{ret, sys6};
use crate::world as w;
use crate::{active, busy, sched};
use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t};

unsafe fn cstr<'a>(p: *const c_char) -> std::borrow::Cow<'a, str> {
    std::ffi::CStr::from_ptr(p).to_string_lossy()
}

macro_rules! sim {
    ($e:expr) => {
        return ret(busy(|| $e)) as _
    };
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if active() {
        sim!(w::open(&cstr(path), flags));
    }
    ret(sys6(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: c_int) -> c_int {
    do_open(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
unsafe fn do_openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if active() {
        sim!(w::open(&cstr(path), flags));
    }
    ret(sys6(libc::SYS_openat, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(dir, path, flags, mode)
}

unsafe fn slice<'a>(p: *const c_void, n: size_t) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p as *const u8, n)
    }
}
unsafe fn slice_mut<'a>(p: *mut c_void, n: size_t) -> &'a mut [u8] {
    if n == 0 {
        &mut []
    } else {
        std::slice::from_raw_parts_mut(p as *mut u8, n)
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if active() && w::is_sim_fd(fd) {
        sim!(w::write(fd, slice(buf, n), None));
    }
    ret(sys6(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if active() && w::is_sim_fd(fd) {
        sim!(w::write(fd, slice(buf, n), Some(off as u64)));
    }
    ret(sys6(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if active() && w::is_sim_fd(fd) {
        sim!({
            let mut all = Vec::new();
            for i in 0..cnt as usize {
                let v = &*iov.add(i);
                all.extend_from_slice(slice(v.iov_base, v.iov_len));
            }
            w::write(fd, &all, None)
        });
    }
    ret(sys6(libc::SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if active() && w::is_sim_fd(fd) {
        sim!(w::read(fd, slice_mut(buf, n), None));
    }
    ret(sys6(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if active() && w::is_sim_fd(fd) {
        sim!(w::read(fd, slice_mut(buf, n), Some(off as u64)));
    }
    ret(sys6(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if active() && w::is_sim_fd(fd) {
        sim!({
            let mut r = 0i64;
            if cnt > 0 {
                let v = &*iov;
                r = w::read(fd, slice_mut(v.iov_base, v.iov_len), None);
            }
            r
        });
    }
    ret(sys6(libc::SYS_readv, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if active() && w::is_sim_fd(fd) {
        sim!(w::lseek(fd, off, whence));
    }
    ret(sys6(libc::SYS_lseek, fd as i64, off, whence as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 1000 && !active() {
        // a simulated descriptor dropped outside a region (harness side): forget it quietly
        return 0;
    }
    if active() && w::is_sim_fd(fd) {
        sim!(w::close(fd));
    }
    ret(sys6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn fill_stat(st: *mut libc::stat64, size: i64, dir: bool) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_size = size;
    (*st).st_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}
unsafe fn stat_result(r: Result<(i64, bool), i32>, st: *mut libc::stat64) -> c_int {
    match r {
        Ok((size, dir)) => {
            fill_stat(st, size, dir);
            0
        }
        Err(e) => ret(-(e as i64)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if active() && w::is_sim_fd(fd) {
        return stat_result(busy(|| w::stat_fd(fd)), st);
    }
    ret(sys6(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if active() {
        return stat_result(busy(|| w::stat_path(&cstr(path))), st);
    }
    ret(sys6(libc::SYS_newfstatat, libc::AT_FDCWD as i64, path as i64, st as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if active() {
        return stat_result(busy(|| w::stat_path(&cstr(path))), st);
    }
    ret(sys6(libc::SYS_newfstatat, libc::AT_FDCWD as i64, path as i64, st as i64, libc::AT_SYMLINK_NOFOLLOW as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    if active() {
        return stat_result(busy(|| w::stat_path(&cstr(path))), st);
    }
    ret(sys6(libc::SYS_newfstatat, dir as i64, path as i64, st as i64, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, fl: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    if active() {
        if path.is_null() || st.is_null() {
            return ret(-(libc::EFAULT as i64)) as c_int;
        }
        let empty = *path == 0;
        if !empty || w::is_sim_fd(dir) {
            let r = busy(|| if empty { w::stat_fd(dir) } else { w::stat_path(&cstr(path)) });
            return match r {
                Ok((size, isdir)) => {
                    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
                    (*st).stx_mask = 0x7ff;
                    (*st).stx_size = size as u64;
                    (*st).stx_nlink = 1;
                    (*st).stx_blksize = 4096;
                    (*st).stx_mode = if isdir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 } as u16;
                    0
                }
                Err(e) => ret(-(e as i64)) as c_int,
            };
        }
    }
    ret(sys6(libc::SYS_statx, dir as i64, path as i64, fl as i64, mask as i64, st as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if active() && w::is_sim_fd(fd) {
        sim!(w::ftruncate(fd, len));
    }
    ret(sys6(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    if active() && w::is_sim_fd(fd) {
        return 0;
    }
    let r = sys6(libc::SYS_fallocate, fd as i64, 0, off, len, 0, 0);
    if r < 0 {
        -r as c_int
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if active() && w::is_sim_fd(fd) {
        sim!(w::sync());
    }
    ret(sys6(libc::SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if active() && w::is_sim_fd(fd) {
        sim!(w::sync());
    }
    ret(sys6(libc::SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        sim!(w::rename(&cstr(a), &cstr(b)));
    }
    ret(sys6(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if active() {
        sim!(w::unlink(&cstr(a)));
    }
    ret(sys6(libc::SYS_unlink, a as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, fl: c_int) -> c_int {
    if active() {
        sim!(w::unlink(&cstr(a)));
    }
    ret(sys6(libc::SYS_unlinkat, d as i64, a as i64, fl as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: c_int) -> c_int {
    if active() {
        sim!(w::mkdir(&cstr(a)));
    }
    ret(sys6(libc::SYS_mkdir, a as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, mode: c_int) -> c_int {
    if active() {
        return 0;
    }
    ret(sys6(libc::SYS_chmod, a as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chdir(a: *const c_char) -> c_int {
    if active() {
        busy(|| w::unsupported("chdir"));
        return 0;
    }
    ret(sys6(libc::SYS_chdir, a as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(a: *const c_char, mode: c_int) -> c_int {
    if active() {
        return match busy(|| w::stat_path(&cstr(a))) {
            Ok(_) => 0,
            Err(e) => ret(-(e as i64)) as c_int,
        };
    }
    ret(sys6(libc::SYS_access, a as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if active() {
        sim!(-(libc::EINVAL as i64));
    }
    ret(sys6(libc::SYS_readlink, a as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        let e = busy(w::getcwd);
        if e != 0 {
            *libc::__errno_location() = e;
            return std::ptr::null_mut();
        }
        let s = b"/cwd\0";
        if n < s.len() || b.is_null() {
            *libc::__errno_location() = libc::ERANGE;
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, b, s.len());
        return b;
    }
    let r = sys6(libc::SYS_getcwd, b as i64, n as i64, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return std::ptr::null_mut();
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if active() && w::is_sim_fd(fd) {
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => ret(busy(|| w::dup(fd))) as c_int,
            _ => 0,
        };
    }
    ret(sys6(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, fl: u32) -> ssize_t {
    if active() && w::is_sim_fd(a) {
        sim!(-(libc::ENOSYS as i64));
    }
    ret(sys6(libc::SYS_copy_file_range, a as i64, ao as i64, b as i64, bo as i64, n as i64, fl as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if active() && w::is_sim_fd(a) {
        sim!(-(libc::ENOSYS as i64));
    }
    ret(sys6(libc::SYS_sendfile, a as i64, b as i64, o as i64, n as i64, 0, 0)) as ssize_t
}

// ---- entropy, clock ----
unsafe fn fill_random(buf: *mut c_void, n: size_t) {
    let s = slice_mut(buf, n);
    for c in s.chunks_mut(8) {
        let v = w::simos_draw_u64().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: u32) -> ssize_t {
    if active() {
        fill_random(buf, n);
        return n as ssize_t;
    }
    // Outside a region too: hash seeds of the harness must not vary between runs.
    let _ = fl;
    fill_random(buf, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    fill_random(buf, n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if active() {
        let t = busy(w::clock);
        (*ts).tv_sec = t / 1_000_000_000;
        (*ts).tv_nsec = t % 1_000_000_000;
        return 0;
    }
    ret(sys6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if active() {
        busy(|| {
            w::advance_clock((*a).tv_sec * 1_000_000_000 + (*a).tv_nsec);
            sched::yield_point();
        });
        return 0;
    }
    ret(sys6(libc::SYS_nanosleep, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if active() {
        busy(|| {
            w::advance_clock((*a).tv_sec * 1_000_000_000 + (*a).tv_nsec);
            sched::yield_point();
        });
        return 0;
    }
    -sys6(libc::SYS_clock_nanosleep, id as i64, fl as i64, a as i64, b as i64, 0, 0) as c_int
}
extern "C" {
    static mut environ: *mut *mut c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if active() {
        return busy(w::getenv);
    }
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = std::ffi::CStr::from_ptr(*e).to_bytes();
        if s.len() > n.len() && &s[..n.len()] == n && s[n.len()] == b'=' {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    core::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        busy(sched::yield_point);
        return 0;
    }
    ret(sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

// ---- generic syscall entry: futexes of std's locks, and entropy ----
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
    }
    if active() {
        if n == libc::SYS_futex {
            let op = b & 0x7f;
            if op == libc::FUTEX_WAIT as i64 || op == libc::FUTEX_WAIT_BITSET as i64 {
                if *(a as *const u32) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                let timed = d != 0;
                let out = busy(|| {
                    w::log_event(b'f', 0, 0, 0);
                    sched::futex_wait(a as usize, timed)
                });
                if out {
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            if op == libc::FUTEX_WAKE as i64 || op == libc::FUTEX_WAKE_BITSET as i64 {
                return busy(|| {
                    let r = sched::futex_wake(a as usize, c as i32 as i64);
                    w::log_event(b'F', r as u64, 0, 0);
                    sched::yield_point();
                    r
                });
            }
        }
        if n == libc::SYS_statx {
            return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long;
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}

// ---- threads created by the library ----
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    start: Start,
    arg: *mut c_void,
    tid: usize,
    parent: usize,
}
static mut HANDLES: [(libc::pthread_t, usize); 64] = [(0, 0); 64];

extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    sched::thread_begin(t.tid);
    crate::set_in(true);
    let (tid, parent, start, arg) = (t.tid, t.parent, t.start, t.arg);
    busy(|| drop(t));
    let r = start(arg);
    crate::set_in(false);
    w::merge_into(tid, parent);
    sched::thread_end(tid);
    r
}

unsafe fn next_sym(name: &[u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    if p.is_null() {
        crate::fatal("dlsym failed");
    }
    p
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
    static mut REAL: Option<F> = None;
    if REAL.is_none() {
        REAL = Some(std::mem::transmute(next_sym(b"pthread_create\0")));
    }
    let real = REAL.unwrap();
    if active() {
        return busy(|| {
            let parent = sched::CUR;
            let tid = sched::new_thread();
            w::inherit(parent, tid);
            w::log_event(b'T', tid as u64, 0, 0);
            let t = Box::into_raw(Box::new(Tramp { start, arg, tid, parent }));
            let r = real(th, attr, tramp, t as *mut c_void);
            for h in HANDLES.iter_mut() {
                if h.0 == 0 {
                    *h = (*th, tid);
                    break;
                }
            }
            sched::yield_point();
            r
        });
    }
    real(th, attr, start, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    static mut REAL: Option<F> = None;
    if REAL.is_none() {
        REAL = Some(std::mem::transmute(next_sym(b"pthread_join\0")));
    }
    if active() {
        for h in HANDLES.iter_mut() {
            if h.0 == th {
                let tid = h.1;
                h.0 = 0;
                busy(|| sched::join(tid));
                break;
            }
        }
    }
    if REAL.is_none() {
        REAL = Some(std::mem::transmute(next_sym(b"pthread_join\0")));
    }
    REAL.unwrap()(th, out)
}
