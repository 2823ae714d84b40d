//! In-memory file system, streams, clock, draw source, fault injection and event log.
use crate::sched::{self, CUR, MAXT};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Kind {
    Any = 0,
    Open,
    Read,
    Write,
    Seek,
    Stat,
    Trunc,
    Sync,
    Rename,
    Unlink,
    StdWrite,
    Clock,
    Draw,
    Close,
    Other,
}
pub const KINDS: usize = 15;
pub const KIND_NAMES: [&str; KINDS] = [
    "any", "open", "read", "write", "seek", "stat", "trunc", "sync", "rename", "unlink", "stdwrite", "clock", "draw", "close",
    "other",
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    /// this call fails
    Errno(i32),
    /// this and every later call of the kind in the operation fails
    Sticky(i32),
    /// transfer at most n bytes
    Short(u32),
    /// transfer nothing, report 0
    Zero,
    /// the process dies before the call
    Crash,
    /// the process dies after n bytes of the call took effect
    CrashAfter(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub kind: Kind,
    pub nth: u32,
    pub act: Act,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cwd {
    Ok,
    ReadOnly,
    Gone,
    Full,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Draws {
    Uniform(u64),
    Fixed(f64),
    /// alternating extremes, chosen by hash
    Extremes(u64),
    /// special values and uniform ones mixed
    Mix(u64),
    /// a, b, a, b ...
    Pair(f64, f64),
}

/// Environment of one operation.
#[derive(Clone, Debug)]
pub struct OpCfg {
    pub wchunk: usize,
    pub rchunk: usize,
    pub eintr_every: u32,
    pub cap: i64,
    pub stat_hint: u8,
    pub cwd: Cwd,
    pub out_errno: i32,
    pub err_errno: i32,
    pub draws: Draws,
    pub faults: Vec<Fault>,
    pub step_limit: u64,
    /// answer every environment variable lookup with this text (0: none is set)
    pub vars: u8,
    /// this text instead (with a final NUL)
    pub vtext: Vec<u8>,
}

impl Default for OpCfg {
    fn default() -> Self {
        OpCfg {
            wchunk: 0,
            rchunk: 0,
            eintr_every: 0,
            cap: -1,
            stat_hint: 0,
            cwd: Cwd::Ok,
            out_errno: 0,
            err_errno: 0,
            draws: Draws::Uniform(0),
            faults: Vec::new(),
            step_limit: 200_000_000,
            vars: 0,
            vtext: Vec::new(),
        }
    }
}

/// Per-thread context of the operation in progress.
pub struct Ctx {
    pub op: u32,
    pub cfg: Option<OpCfg>,
    pub counts: [u32; KINDS],
    pub ndraw: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub written: i64,
    pub io_calls: u32,
    pub fired: Vec<bool>,
    pub sticky: [i32; KINDS],
    pub touched: BTreeSet<String>,
    pub opened_read: BTreeSet<String>,
    pub hard_fault: bool,
    pub max_steps: u64,
}

pub static mut CTX: [Ctx; MAXT] = [const {
    Ctx {
        op: 0,
        cfg: None,
        counts: [0; KINDS],
        ndraw: 0,
        steps: 0,
        step_limit: u64::MAX,
        written: 0,
        io_calls: 0,
        fired: Vec::new(),
        sticky: [0; KINDS],
        touched: BTreeSet::new(),
        opened_read: BTreeSet::new(),
        hard_fault: false,
        max_steps: 0,
    }
}; MAXT];

pub struct File {
    pub data: Vec<u8>,
}

#[derive(Clone)]
struct Fd {
    inode: usize,
    off: u64,
    append: bool,
    can_read: bool,
    can_write: bool,
    dir: bool,
}

pub struct World {
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<File>,
    pub dirs: BTreeSet<String>,
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    pub crashed: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub clock: i64,
    pub log_hash: u64,
    pub nevents: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub fired: BTreeMap<String, u64>,
    pub calls: [u64; KINDS],
    pub unsupported: BTreeMap<String, u64>,
    /// per finished operation: (op, touched paths, counts, steps, draws)
    pub done: Vec<OpRec>,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub op: u32,
    pub touched: BTreeSet<String>,
    pub read: BTreeSet<String>,
    pub counts: [u32; KINDS],
    pub steps: u64,
    pub ndraw: u64,
    /// a fault that the library cannot absorb was delivered (error, zero write, crash)
    pub hard: bool,
}

static mut WORLD: Option<World> = None;

pub fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}

pub fn new_world(verbose: bool) {
    let mut dirs = BTreeSet::new();
    for d in ["/", "/cwd", "/cwd/tmp", "/data", "/tmp", "/home"] {
        dirs.insert(d.to_string());
    }
    unsafe {
        WORLD = Some(World {
            names: BTreeMap::new(),
            inodes: Vec::new(),
            dirs,
            fds: BTreeMap::new(),
            next_fd: 1000,
            crashed: false,
            stdout: Vec::new(),
            stderr: Vec::new(),
            clock: 1_700_000_000_000_000_000,
            log_hash: 0xcbf29ce484222325,
            nevents: 0,
            verbose,
            log: Vec::new(),
            fired: BTreeMap::new(),
            calls: [0; KINDS],
            unsupported: BTreeMap::new(),
            done: Vec::new(),
        });
    }
}

fn fnv(h: &mut u64, v: u64) {
    for b in v.to_le_bytes() {
        *h ^= b as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
}

pub fn log_event(tag: u8, a: u64, b: u64, c: u64) {
    let w = world();
    w.nevents += 1;
    fnv(&mut w.log_hash, tag as u64);
    fnv(&mut w.log_hash, unsafe { CUR } as u64);
    fnv(&mut w.log_hash, a);
    fnv(&mut w.log_hash, b);
    fnv(&mut w.log_hash, c);
    if w.verbose && w.log.len() < 4000 {
        let s = format!("t{} {} {} {} {}", unsafe { CUR }, tag as char, a, b, c);
        w.log.push(s);
    }
}

fn note(s: impl FnOnce() -> String) {
    let w = world();
    if w.verbose && w.log.len() < 4000 {
        let t = unsafe { CUR };
        let op = ctx().op;
        w.log.push(format!("t{} op{} {}", t, op, s()));
    }
}

pub fn advance_clock(ns: i64) {
    world().clock += ns;
}

pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut CTX[CUR] }
}

pub fn op_begin(op: u32, cfg: &OpCfg) {
    let c = ctx();
    c.op = op;
    c.counts = [0; KINDS];
    c.ndraw = 0;
    c.steps = 0;
    c.step_limit = cfg.step_limit;
    c.written = 0;
    c.io_calls = 0;
    c.fired = vec![false; cfg.faults.len()];
    c.sticky = [0; KINDS];
    c.touched = BTreeSet::new();
    c.opened_read = BTreeSet::new();
    c.hard_fault = false;
    c.cfg = Some(cfg.clone());
}

/// A thread spawned by library code inherits the operation of its creator.
pub fn inherit(from: usize, to: usize) {
    unsafe {
        let cfg = CTX[from].cfg.clone();
        CTX[to].op = CTX[from].op;
        CTX[to].step_limit = CTX[from].step_limit;
        CTX[to].steps = 0;
        CTX[to].counts = [0; KINDS];
        CTX[to].fired = vec![true; cfg.as_ref().map(|c| c.faults.len()).unwrap_or(0)];
        CTX[to].cfg = cfg;
        CTX[to].sticky = [0; KINDS];
        CTX[to].ndraw = 0;
        CTX[to].io_calls = 0;
        CTX[to].written = 0;
        CTX[to].touched = BTreeSet::new();
        CTX[to].opened_read = BTreeSet::new();
        CTX[to].hard_fault = false;
    }
}

/// Merge a library-spawned thread's side effects into its creator's operation record.
pub fn merge_into(from: usize, to: usize) {
    unsafe {
        let t = std::mem::take(&mut CTX[from].touched);
        CTX[to].touched.extend(t);
        let t = std::mem::take(&mut CTX[from].opened_read);
        CTX[to].opened_read.extend(t);
        CTX[to].hard_fault |= CTX[from].hard_fault;
    }
}

pub fn op_end() {
    let c = ctx();
    let rec = OpRec {
        op: c.op,
        touched: std::mem::take(&mut c.touched),
        read: std::mem::take(&mut c.opened_read),
        counts: c.counts,
        steps: c.steps,
        ndraw: c.ndraw,
        hard: c.hard_fault,
    };
    c.max_steps = c.max_steps.max(c.steps);
    c.cfg = None;
    c.step_limit = u64::MAX;
    world().done.push(rec);
}

/// After a crash: everything volatile is gone, files stay.
pub fn restart() {
    let w = world();
    w.crashed = false;
    w.fds.clear();
    note(|| "restart".into());
}

pub fn norm(path: &str) -> String {
    let full = if path.starts_with('/') { path.to_string() } else { format!("/cwd/{}", path) };
    let mut parts: Vec<&str> = Vec::new();
    for p in full.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            p => parts.push(p),
        }
    }
    format!("/{}", parts.join("/"))
}

fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].to_string(),
    }
}

impl World {
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        let p = norm(path);
        self.inodes.push(File { data });
        self.names.insert(p, self.inodes.len() - 1);
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        self.names.get(&norm(path)).map(|&i| &self.inodes[i].data)
    }
    pub fn remove(&mut self, path: &str) {
        self.names.remove(&norm(path));
    }
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        self.names.iter().map(|(k, &i)| (k.clone(), self.inodes[i].data.clone())).collect()
    }
}

fn fired(name: &str) {
    *world().fired.entry(name.to_string()).or_insert(0) += 1;
}

/// Outcome of fault resolution for one call.
pub enum Go {
    Fail(i32),
    Dead,
    /// proceed; transfer at most n bytes (usize::MAX: no limit); die afterwards?
    Ok(usize, bool),
    Zero,
}

/// Every intercepted call passes here first: yield, crash state, planned faults, chunking, EINTR.
pub fn gate(kind: Kind) -> Go {
    sched::yield_point();
    let w = world();
    let c = ctx();
    w.calls[kind as usize] += 1;
    let n = c.counts[kind as usize];
    let any = c.counts[0];
    c.counts[kind as usize] += 1;
    if kind != Kind::Draw && kind != Kind::Clock {
        c.counts[0] += 1;
    }
    if w.crashed {
        return Go::Dead;
    }
    let Some(cfg) = c.cfg.as_ref() else { return Go::Ok(usize::MAX, false) };
    if c.sticky[kind as usize] != 0 {
        c.hard_fault = true;
        return Go::Fail(c.sticky[kind as usize]);
    }
    for i in 0..cfg.faults.len() {
        let f = cfg.faults[i];
        if c.fired[i] {
            continue;
        }
        let hit = if f.kind == Kind::Any { kind != Kind::Draw && kind != Kind::Clock && f.nth == any } else { f.kind == kind && f.nth == n };
        if !hit {
            continue;
        }
        c.fired[i] = true;
        let kn = KIND_NAMES[kind as usize];
        match f.act {
            Act::Errno(e) => {
                fired(&format!("{}-errno{}", kn, e));
                note(|| format!("FAULT {} fails errno {}", kn, e));
                if e != libc::EINTR || !matches!(kind, Kind::Open | Kind::Read | Kind::Write) {
                    c.hard_fault = true;
                }
                return Go::Fail(e);
            }
            Act::Sticky(e) => {
                fired(&format!("{}-dead-errno{}", kn, e));
                note(|| format!("FAULT {} fails from now on, errno {}", kn, e));
                c.sticky[kind as usize] = e;
                c.hard_fault = true;
                return Go::Fail(e);
            }
            Act::Short(k) => {
                fired(&format!("{}-short", kn));
                return Go::Ok((k as usize).max(1), false);
            }
            Act::Zero => {
                fired(&format!("{}-zero", kn));
                c.hard_fault = true;
                return Go::Zero;
            }
            Act::Crash => {
                fired("crash");
                note(|| format!("FAULT crash before {}", kn));
                w.crashed = true;
                c.hard_fault = true;
                return Go::Dead;
            }
            Act::CrashAfter(k) => {
                fired("crash-torn");
                note(|| format!("FAULT crash after {} bytes of {}", k, kn));
                c.hard_fault = true;
                return Go::Ok(k as usize, true);
            }
        }
    }
    if kind == Kind::Write || kind == Kind::Read {
        c.io_calls += 1;
        if cfg.eintr_every > 0 && c.io_calls % cfg.eintr_every == 0 {
            fired(if kind == Kind::Write { "write-eintr" } else { "read-eintr" });
            return Go::Fail(libc::EINTR);
        }
        let ch = if kind == Kind::Write { cfg.wchunk } else { cfg.rchunk };
        if ch > 0 {
            return Go::Ok(ch, false);
        }
    }
    Go::Ok(usize::MAX, false)
}

fn cwd_denies(path: &str, write: bool) -> i32 {
    let c = ctx();
    let Some(cfg) = c.cfg.as_ref() else { return 0 };
    if parent(path) != "/cwd" && !path.starts_with("/cwd/") {
        return 0;
    }
    match cfg.cwd {
        Cwd::Ok => 0,
        Cwd::ReadOnly if write => libc::EACCES,
        Cwd::Gone => libc::ENOENT,
        Cwd::Full if write => libc::ENOSPC,
        _ => 0,
    }
}

pub fn open(path: &str, flags: i32) -> i64 {
    let g = gate(Kind::Open);
    let p = norm(path);
    let acc = flags & libc::O_ACCMODE;
    let wr = acc != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    if !matches!(g, Go::Dead) {
        if wr {
            ctx().touched.insert(p.clone());
        } else {
            ctx().opened_read.insert(p.clone());
        }
    }
    let r = (|| -> i64 {
        let die = match g {
            Go::Fail(e) => return -(e as i64),
            Go::Dead => return -(libc::EIO as i64),
            Go::Zero => return -(libc::EIO as i64),
            Go::Ok(_, die) => die,
        };
        let e = cwd_denies(&p, wr);
        if e != 0 {
            fired("cwd-denied");
            return -(e as i64);
        }
        let w = world();
        if w.dirs.contains(&p) {
            if wr {
                return -(libc::EISDIR as i64);
            }
            let fd = w.next_fd;
            w.next_fd += 1;
            w.fds.insert(fd, Fd { inode: 0, off: 0, append: false, can_read: false, can_write: false, dir: true });
            return fd as i64;
        }
        let ino = match w.names.get(&p) {
            Some(&i) => {
                if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                    return -(libc::EEXIST as i64);
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return -(libc::ENOENT as i64);
                }
                if !w.dirs.contains(&parent(&p)) {
                    return -(libc::ENOENT as i64);
                }
                w.inodes.push(File { data: Vec::new() });
                w.names.insert(p.clone(), w.inodes.len() - 1);
                w.inodes.len() - 1
            }
        };
        if flags & libc::O_TRUNC != 0 {
            w.inodes[ino].data.clear();
        }
        if die {
            w.crashed = true;
            return -(libc::EIO as i64);
        }
        let fd = w.next_fd;
        w.next_fd += 1;
        w.fds.insert(
            fd,
            Fd {
                inode: ino,
                off: 0,
                append: flags & libc::O_APPEND != 0,
                can_read: acc != libc::O_WRONLY,
                can_write: acc != libc::O_RDONLY,
                dir: false,
            },
        );
        fd as i64
    })();
    note(|| format!("open {} {:#x} -> {}", p, flags, r));
    log_event(b'o', p.len() as u64, flags as u64, r as u64);
    r
}

fn std_write(fd: i32, buf: &[u8]) -> i64 {
    let g = gate(Kind::StdWrite);
    let c = ctx();
    let err = c.cfg.as_ref().map(|x| if fd == 1 { x.out_errno } else { x.err_errno }).unwrap_or(0);
    let r = match g {
        Go::Fail(e) => -(e as i64),
        Go::Dead => -(libc::EIO as i64),
        _ if err != 0 => {
            fired(if fd == 1 { "stdout-broken" } else { "stderr-broken" });
            -(err as i64)
        }
        _ => {
            let w = world();
            let s = if fd == 1 { &mut w.stdout } else { &mut w.stderr };
            if s.len() < 1 << 16 {
                s.extend_from_slice(buf);
            }
            buf.len() as i64
        }
    };
    log_event(b'S', fd as u64, buf.len() as u64, r as u64);
    r
}

pub fn write(fd: i32, buf: &[u8], at: Option<u64>) -> i64 {
    if fd == 1 || fd == 2 {
        return std_write(fd, buf);
    }
    let g = gate(Kind::Write);
    let r = (|| -> i64 {
        let (limit, die) = match g {
            Go::Fail(e) => return -(e as i64),
            Go::Dead => return -(libc::EIO as i64),
            Go::Zero => return 0,
            Go::Ok(l, d) => (l, d),
        };
        let w = world();
        let Some(f) = w.fds.get_mut(&fd) else { return -(libc::EBADF as i64) };
        if !f.can_write {
            return -(libc::EBADF as i64);
        }
        let mut n = buf.len().min(limit);
        let data = &mut w.inodes[f.inode].data;
        let off = if f.append { data.len() as u64 } else { at.unwrap_or(f.off) };
        if n < buf.len() && !die {
            *w.fired.entry("write-short".into()).or_insert(0) += 1;
        }
        // space: only growth of the file consumes it
        let c = ctx();
        let cap = c.cfg.as_ref().map(|x| x.cap).unwrap_or(-1);
        if cap >= 0 {
            let room = cap - c.written;
            let inside = (data.len() as u64).saturating_sub(off).min(n as u64) as i64;
            let grow = n as i64 - inside;
            if grow > room {
                n = (inside + room.max(0)) as usize;
                *w.fired.entry("disk-full".into()).or_insert(0) += 1;
                if n == 0 && !buf.is_empty() {
                    c.hard_fault = true;
                    return -(libc::ENOSPC as i64);
                }
            }
            let inside = (data.len() as u64).saturating_sub(off).min(n as u64) as i64;
            c.written += n as i64 - inside;
        }
        let end = off as usize + n;
        if end > 1 << 28 {
            return -(libc::EFBIG as i64);
        }
        if data.len() < end {
            data.resize(end, 0);
        }
        data[off as usize..end].copy_from_slice(&buf[..n]);
        if at.is_none() {
            f.off = end as u64;
        }
        if die {
            w.crashed = true;
            return -(libc::EIO as i64);
        }
        n as i64
    })();
    note(|| format!("write fd{} len {} -> {}", fd, buf.len(), r));
    let mut h = 0xcbf29ce484222325u64;
    for &b in buf.iter().take(64) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    log_event(b'w', buf.len() as u64, h, r as u64);
    r
}

pub fn read(fd: i32, buf: &mut [u8], at: Option<u64>) -> i64 {
    if fd == 0 {
        return 0;
    }
    let g = gate(Kind::Read);
    let r = (|| -> i64 {
        let (limit, die) = match g {
            Go::Fail(e) => return -(e as i64),
            Go::Dead => return -(libc::EIO as i64),
            Go::Zero => return 0,
            Go::Ok(l, d) => (l, d),
        };
        let w = world();
        if die {
            w.crashed = true;
            return -(libc::EIO as i64);
        }
        let Some(f) = w.fds.get_mut(&fd) else { return -(libc::EBADF as i64) };
        if f.dir {
            return -(libc::EISDIR as i64);
        }
        if !f.can_read {
            return -(libc::EBADF as i64);
        }
        let data = &w.inodes[f.inode].data;
        let off = at.unwrap_or(f.off) as usize;
        let avail = data.len().saturating_sub(off);
        let n = buf.len().min(avail).min(limit);
        if n < buf.len().min(avail) {
            *w.fired.entry("read-short".into()).or_insert(0) += 1;
        }
        buf[..n].copy_from_slice(&data[off..off + n]);
        if at.is_none() {
            f.off = (off + n) as u64;
        }
        n as i64
    })();
    note(|| format!("read fd{} len {} -> {}", fd, buf.len(), r));
    log_event(b'r', fd as u64, buf.len() as u64, r as u64);
    r
}

pub fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    let g = gate(Kind::Seek);
    let r = (|| -> i64 {
        match g {
            Go::Fail(e) => return -(e as i64),
            Go::Dead | Go::Zero => return -(libc::EIO as i64),
            Go::Ok(_, true) => {
                world().crashed = true;
                return -(libc::EIO as i64);
            }
            _ => {}
        }
        let w = world();
        let Some(f) = w.fds.get_mut(&fd) else { return -(libc::EBADF as i64) };
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.off as i64,
            libc::SEEK_END => w.inodes[f.inode].data.len() as i64,
            _ => return -(libc::EINVAL as i64),
        };
        if base + off < 0 {
            return -(libc::EINVAL as i64);
        }
        f.off = (base + off) as u64;
        f.off as i64
    })();
    note(|| format!("lseek fd{} {} {} -> {}", fd, off, whence, r));
    log_event(b'l', off as u64, whence as u64, r as u64);
    r
}

pub fn close(fd: i32) -> i64 {
    let g = gate(Kind::Close);
    let w = world();
    match g {
        Go::Dead => return 0,
        Go::Ok(_, true) => {
            w.crashed = true;
            return 0;
        }
        _ => {}
    }
    w.fds.remove(&fd);
    log_event(b'c', fd as u64, 0, 0);
    0
}

/// (size, is_dir) or errno
pub fn stat_fd(fd: i32) -> Result<(i64, bool), i32> {
    let g = gate(Kind::Stat);
    match g {
        Go::Fail(e) => return Err(e),
        Go::Dead | Go::Zero => return Err(libc::EIO),
        Go::Ok(_, true) => {
            world().crashed = true;
            return Err(libc::EIO);
        }
        _ => {}
    }
    let w = world();
    if (0..3).contains(&fd) {
        return Ok((0, false));
    }
    let Some(f) = w.fds.get(&fd) else { return Err(libc::EBADF) };
    if f.dir {
        return Ok((0, true));
    }
    let len = w.inodes[f.inode].data.len() as i64;
    let hint = ctx().cfg.as_ref().map(|c| c.stat_hint).unwrap_or(0);
    let r = match hint {
        1 => {
            fired("stat-size-zero");
            0
        }
        2 => {
            fired("stat-size-big");
            len * 2 + 100
        }
        3 => {
            fired("stat-size-small");
            len / 2
        }
        4 => {
            fired("stat-error");
            ctx().hard_fault = true;
            return Err(libc::EIO);
        }
        _ => len,
    };
    log_event(b't', len as u64, r as u64, 0);
    Ok((r, false))
}

pub fn stat_path(path: &str) -> Result<(i64, bool), i32> {
    match gate(Kind::Stat) {
        Go::Fail(e) => return Err(e),
        Go::Dead | Go::Zero => return Err(libc::EIO),
        _ => {}
    }
    let w = world();
    let p = norm(path);
    if w.dirs.contains(&p) {
        return Ok((0, true));
    }
    match w.names.get(&p) {
        Some(&i) => Ok((w.inodes[i].data.len() as i64, false)),
        None => Err(libc::ENOENT),
    }
}

pub fn ftruncate(fd: i32, len: i64) -> i64 {
    match gate(Kind::Trunc) {
        Go::Fail(e) => return -(e as i64),
        Go::Dead | Go::Zero => return -(libc::EIO as i64),
        Go::Ok(_, true) => {
            world().crashed = true;
            return -(libc::EIO as i64);
        }
        _ => {}
    }
    let w = world();
    let Some(f) = w.fds.get(&fd) else { return -(libc::EBADF as i64) };
    if len < 0 || len > 1 << 28 {
        return -(libc::EINVAL as i64);
    }
    w.inodes[f.inode].data.resize(len as usize, 0);
    log_event(b'T', len as u64, 0, 0);
    0
}

pub fn rename(a: &str, b: &str) -> i64 {
    let g = gate(Kind::Rename);
    let (a, b) = (norm(a), norm(b));
    let die = match g {
        Go::Fail(e) => return -(e as i64),
        Go::Dead | Go::Zero => return -(libc::EIO as i64),
        Go::Ok(_, d) => d,
    };
    let c = ctx();
    c.touched.insert(a.clone());
    c.touched.insert(b.clone());
    let w = world();
    if die {
        w.crashed = true;
        return -(libc::EIO as i64);
    }
    let Some(i) = w.names.remove(&a) else { return -(libc::ENOENT as i64) };
    w.names.insert(b, i);
    log_event(b'R', 0, 0, 0);
    0
}

pub fn unlink(a: &str) -> i64 {
    let g = gate(Kind::Unlink);
    let a = norm(a);
    match g {
        Go::Fail(e) => return -(e as i64),
        Go::Dead | Go::Zero => return -(libc::EIO as i64),
        _ => {}
    }
    ctx().touched.insert(a.clone());
    let w = world();
    log_event(b'U', 0, 0, 0);
    if w.names.remove(&a).is_some() {
        0
    } else {
        -(libc::ENOENT as i64)
    }
}

pub fn mkdir(a: &str) -> i64 {
    match gate(Kind::Other) {
        Go::Fail(e) => return -(e as i64),
        Go::Dead | Go::Zero => return -(libc::EIO as i64),
        _ => {}
    }
    let a = norm(a);
    ctx().touched.insert(a.clone());
    let w = world();
    if w.dirs.contains(&a) || w.names.contains_key(&a) {
        return -(libc::EEXIST as i64);
    }
    if !w.dirs.contains(&parent(&a)) {
        return -(libc::ENOENT as i64);
    }
    w.dirs.insert(a);
    0
}

pub fn sync() -> i64 {
    match gate(Kind::Sync) {
        Go::Fail(e) => -(e as i64),
        Go::Dead | Go::Zero => -(libc::EIO as i64),
        _ => 0,
    }
}

pub fn dup(fd: i32) -> i64 {
    let _ = gate(Kind::Other);
    let w = world();
    let Some(f) = w.fds.get(&fd).cloned() else { return -(libc::EBADF as i64) };
    let n = w.next_fd;
    w.next_fd += 1;
    w.fds.insert(n, f);
    n as i64
}

pub fn is_sim_fd(fd: i32) -> bool {
    fd >= 1000 || (0..3).contains(&fd)
}

pub fn clock() -> i64 {
    let _ = gate(Kind::Clock);
    let w = world();
    w.clock += 1000;
    w.clock
}

/// 0 or the error of asking for the working directory
pub fn getcwd() -> i32 {
    sched::yield_point();
    if matches!(ctx().cfg.as_ref().map(|c| c.cwd), Some(Cwd::Gone)) {
        fired("getcwd-ENOENT");
        return libc::ENOENT;
    }
    0
}

pub fn getenv() -> *mut libc::c_char {
    let v = ctx().cfg.as_ref().map(|c| c.vars).unwrap_or(0);
    log_event(b'v', v as u64, 0, 0);
    if v == 0 {
        return core::ptr::null_mut();
    }
    fired("env-variable-set");
    if let Some(t) = ctx().cfg.as_ref().map(|c| &c.vtext).filter(|t| t.len() > 1) {
        return t.as_ptr() as *mut libc::c_char;
    }
    (match v {
        1 => c"1".as_ptr(),
        2 => c"/nonexistent/dir".as_ptr(),
        3 => c"".as_ptr(),
        _ => c"full".as_ptr(),
    }) as *mut libc::c_char
}

pub fn unsupported(name: &str) {
    *world().unsupported.entry(name.to_string()).or_insert(0) += 1;
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn bits(f: f64) -> u64 {
    let k = (f.clamp(0.0, 1.0) * (1u64 << 53) as f64) as u64;
    k.min((1u64 << 53) - 1) << 11
}

pub fn draw_value(d: Draws, n: u64) -> u64 {
    match d {
        Draws::Uniform(s) => splitmix(s ^ splitmix(n)),
        Draws::Fixed(f) => bits(f),
        Draws::Extremes(s) => {
            if splitmix(s ^ splitmix(n)) & 1 == 0 {
                0
            } else {
                !0
            }
        }
        Draws::Mix(s) => {
            let h = splitmix(s ^ splitmix(n));
            match h % 8 {
                0 => 0,
                1 => !0,
                2 => bits(0.5),
                3 => bits(0.25),
                4 => bits(0.75),
                _ => splitmix(h),
            }
        }
        Draws::Pair(a, b) => bits(if n % 2 == 0 { a } else { b }),
    }
}

static mut OUTSIDE_DRAWS: u64 = 0;

#[no_mangle]
pub extern "C" fn simos_draw_u64() -> u64 {
    if !crate::active() {
        unsafe {
            OUTSIDE_DRAWS += 1;
            return splitmix(0x1234_5678 ^ OUTSIDE_DRAWS);
        }
    }
    crate::busy(|| {
        let _ = gate(Kind::Draw);
        let c = ctx();
        let d = c.cfg.as_ref().map(|c| c.draws).unwrap_or(Draws::Uniform(0));
        let n = c.ndraw;
        c.ndraw += 1;
        let v = draw_value(d, n);
        log_event(b'd', n, v, 0);
        v
    })
}
