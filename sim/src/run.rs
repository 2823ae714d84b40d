//! One simulated run per forked process; verdicts over one or several runs.
use crate::content::check_crashed;
use crate::exec::{self, *};
use crate::judge::{self, Viol};
use crate::scn::*;
use crate::{step, valid};
use serde::{Deserialize, Serialize};
use simos::{raw, sched, world};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct OpSum {
    pub tid: usize,
    pub ix: usize,
    pub name: String,
    /// ok, err, panic, skipped
    pub res: String,
    pub msg: String,
    pub counts: Vec<u32>,
    pub ndraw: u64,
    pub steps: u64,
    /// size of the file read or written
    pub len: u64,
    pub val: u64,
    /// hash of the file written, 0: none
    pub file: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bytes: Option<String>,
    pub reads: Vec<String>,
    pub dead: bool,
    pub hard: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ViolS {
    pub tid: usize,
    pub ix: usize,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub viols: Vec<ViolS>,
    /// the harness could not do its work
    #[serde(default)]
    pub error: Option<String>,
    pub log_hash: u64,
    pub events: u64,
    pub fired: BTreeMap<String, u64>,
    pub unsupported: BTreeMap<String, u64>,
    pub clock: i64,
    pub switches: u64,
    pub yields: u64,
    pub marks: Vec<u64>,
    pub ops: Vec<OpSum>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub log: Vec<String>,
}

#[derive(Clone, Copy, Default)]
pub struct Mode {
    pub judge: bool,
    pub bytes: bool,
    pub log: bool,
    pub marks: bool,
}

pub fn hash64(it: impl Iterator<Item = u64>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in it {
        h = world::splitmix(h ^ x);
    }
    h | 1
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    hash64(b.iter().map(|x| *x as u64).chain([b.len() as u64]))
}

static mut OUT_FD: i32 = -1;
static mut LOGGING: bool = false;

fn world_part(r: &mut Report) {
    let w = world::world();
    r.log_hash = w.log_hash;
    r.events = w.nevents;
    r.fired = w.fired.clone();
    r.unsupported = w.unsupported.clone();
    r.clock = w.clock - 1_700_000_000_000_000_000;
    unsafe {
        r.switches = sched::SWITCHES;
        r.yields = sched::YIELDS;
        if LOGGING {
            r.log = w.log.clone();
        }
    }
}

fn emit(r: &Report) -> ! {
    let s = serde_json::to_vec(r).unwrap();
    unsafe { raw::write_all(OUT_FD, &s) };
    raw::exit_group(0)
}

fn on_fatal(msg: &str) -> ! {
    let mut r = Report::default();
    world_part(&mut r);
    let op = world::ctx().op as usize;
    let class = if msg.contains("memory") { "memory" } else { "hang" };
    r.viols.push(ViolS { tid: op / 1000, ix: op % 1000, class: class.into(), msg: msg.into() });
    emit(&r)
}

fn panic_class(msg: &str) -> String {
    // "... (file:line)"
    let at = msg.rfind('(').map(|i| msg[i + 1..].trim_end_matches(')').to_string()).unwrap_or_default();
    let f = at.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
    format!("panic@{}", f)
}

fn summarize(s: &Scenario, mode: Mode) -> Report {
    let mut r = Report::default();
    let solo = s.threads.len() <= 1;
    let outs = match exec::execute(s, mode.log) {
        Ok(o) => o,
        Err(e) => {
            world_part(&mut r);
            r.viols.push(ViolS { tid: 0, ix: 0, class: "panic@setup".into(), msg: e });
            return r;
        }
    };
    world_part(&mut r);
    if mode.marks {
        r.marks = unsafe { sched::MARKS.iter().take(2000).cloned().collect() };
    }
    for o in &outs {
        let item = &s.threads[o.tid][o.ix];
        let path = item.op.path().map(world::norm);
        let file = if item.op.writes() { path.as_ref().and_then(|p| o.after.get(p)) } else { None };
        let len = if item.op.writes() {
            file.map(|f| f.len()).unwrap_or(0)
        } else {
            path.as_ref().and_then(|p| o.before.get(p)).map(|f| f.len()).unwrap_or(0)
        };
        let (res, msg) = match &o.res {
            _ if o.skipped => ("skipped", String::new()),
            Res::Ok => ("ok", String::new()),
            Res::Err(e) => ("err", e.clone()),
            Res::Panic(p) => ("panic", p.clone()),
        };
        r.ops.push(OpSum {
            tid: o.tid,
            ix: o.ix,
            name: item.op.name().into(),
            res: res.into(),
            msg,
            counts: o.rec.counts.to_vec(),
            ndraw: o.rec.ndraw,
            steps: o.rec.steps,
            len: len as u64,
            val: hash64(o.val.bits().into_iter()),
            file: file.map(|f| hash_bytes(f)).unwrap_or(0),
            bytes: if mode.bytes { file.map(|f| f.iter().map(|b| format!("{:02x}", b)).collect()) } else { None },
            reads: o.rec.read.iter().cloned().collect(),
            dead: o.dead,
            hard: o.rec.hard,
        });
    }
    if mode.judge {
        for o in &outs {
            let item = &s.threads[o.tid][o.ix];
            let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge::judge(item, o, &s.shared, solo)));
            let v: Result<(), Viol> = match v {
                Ok(v) => v,
                Err(_) => Err(("malformed".into(), format!("{}: the result cannot be interpreted", item.op.name()))),
            };
            if let Err((c, m)) = v {
                let c = if c == "panic" { panic_class(&m) } else { c };
                r.viols.push(ViolS { tid: o.tid, ix: o.ix, class: c, msg: m });
            }
        }
    }
    r
}

/// Run `f` in a child process; its bytes come back unless it was killed.
pub fn in_child(f: impl FnOnce(i32)) -> Result<Vec<u8>, i32> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Err(-1);
        }
        let pid = libc::fork();
        if pid < 0 {
            raw_close(p[0]);
            raw_close(p[1]);
            return Err(-2);
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            f(p[1]);
            raw::exit_group(96);
        }
        raw_close(p[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let n = raw::sys6(libc::SYS_read, p[0] as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0);
            if n == -(libc::EINTR as i64) {
                continue;
            }
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        raw_close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {
            if *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        if libc::WIFSIGNALED(st) {
            return Err(libc::WTERMSIG(st));
        }
        Ok(out)
    }
}
fn raw_close(fd: i32) {
    unsafe {
        raw::sys6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0);
    }
}

pub static mut RUNS: u64 = 0;
pub static mut CPU_LIMIT: u64 = 60;

/// Execute a scenario in its own process.
pub fn run(s: &Scenario, mode: Mode) -> Report {
    unsafe {
        RUNS += 1;
    }
    let r = in_child(|fd| unsafe {
        OUT_FD = fd;
        LOGGING = mode.log;
        simos::FATAL = Some(on_fatal);
        let l = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        if std::env::var("DST_CORE").is_err() {
            libc::setrlimit(libc::RLIMIT_CORE, &l);
        }
        libc::alarm(4 * CPU_LIMIT as u32);
        if std::env::var("DST_DEBUG").is_err() {
            let n = libc::syscall(libc::SYS_open, b"/dev/null\0".as_ptr(), libc::O_WRONLY) as i32;
            libc::dup2(n, 2);
        }
        exec::install_panic_hook();
        emit(&summarize(s, mode))
    });
    match r {
        Ok(b) => serde_json::from_slice(&b).unwrap_or_else(|e| Report {
            error: Some(format!("unreadable report of a run ({}), {} bytes", e, b.len())),
            ..Default::default()
        }),
        Err(sig) => {
            let mut r = Report::default();
            let (class, msg) = match sig {
                libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => {
                    ("crash", format!("the process died of signal {}", sig))
                }
                libc::SIGXCPU | libc::SIGKILL => ("hang", format!("no result after {} s of processor time", unsafe { CPU_LIMIT })),
                s => {
                    r.error = Some(format!("run ended by signal {}", s));
                    return r;
                }
            };
            r.viols.push(ViolS { tid: 0, ix: 0, class: class.into(), msg });
            r
        }
    }
}

// ---------------------------------------------------------------- verdicts

#[derive(Clone, Debug, Default)]
pub struct Verdict {
    pub viol: Option<ViolS>,
    pub discard: bool,
    pub error: Option<String>,
    pub rep: Report,
}

/// Reference runs of one base case, by scenario.
pub type Cache = HashMap<String, Report>;

fn cached(c: &mut Cache, s: &Scenario, m: Mode) -> Report {
    let k = serde_json::to_string(&(&s.files, &s.shared, &s.threads)).unwrap();
    if let Some(r) = c.get(&k) {
        return r.clone();
    }
    let r = run(s, m);
    if c.len() > 256 {
        c.clear();
    }
    c.insert(k, r.clone());
    r
}

fn relevant(prop: &str, class: &str) -> bool {
    match prop {
        "C05" => true,
        "C08" => class != "content" && class != "value" && class != "geometry",
        "C09" => matches!(class, "side-effect" | "torn" | "crash" | "memory" | "hang"),
        "C10" | "C16" => true,
        _ => class != "side-effect",
    }
}

fn pick(prop: &str, v: &[ViolS]) -> Option<ViolS> {
    v.iter().find(|v| relevant(prop, &v.class)).cloned()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

pub fn preconditions(s: &Scenario) -> bool {
    // these compare with a reference run and hold for unspecified results too
    let differential = matches!(s.prop.as_str(), "C08" | "C10" | "C16");
    (s.prop != "C16" || valid::history(s))
        && valid::scenario(s)
        && (differential || s.threads.iter().flatten().all(|i| judge::precondition(&i.op, &s.shared)))
}

/// Decide a scenario.
pub fn decide(s: &Scenario, cache: &mut Cache, trust: bool, log: bool) -> Verdict {
    let mut v = Verdict::default();
    if !trust && !preconditions(s) {
        v.discard = true;
        return v;
    }
    let m = Mode { judge: true, bytes: s.prop == "C09", log, marks: s.prop == "C10" };
    let r = run(s, m);
    v.error = r.error.clone();
    v.viol = match s.prop.as_str() {
        "C08" => decide_env(s, &r, cache),
        "C09" => decide_crash(s, &r, cache),
        "C10" => decide_threads(s, &r, cache),
        "C16" => decide_history(s, &r, cache),
        p => pick(p, &r.viols),
    };
    v.rep = r;
    v
}

fn healthy_mode() -> Mode {
    Mode { judge: true, ..Default::default() }
}

fn decide_env(s: &Scenario, r: &Report, cache: &mut Cache) -> Option<ViolS> {
    let mut c = s.clone();
    for i in c.threads.iter_mut().flatten() {
        i.env = i.env.clean();
    }
    let clean = cached(cache, &c, healthy_mode());
    for v in &r.viols {
        // what fails in a healthy environment too is not this property's concern; side effects always are
        if relevant("C08", &v.class) && (v.class == "side-effect" || !clean.viols.iter().any(|x| x.class == v.class)) {
            return Some(v.clone());
        }
    }
    if !r.viols.is_empty() && r.ops.is_empty() || clean.ops.len() != r.ops.len() {
        return None;
    }
    for (a, b) in r.ops.iter().zip(&clean.ops) {
        let op = &s.threads[a.tid][a.ix].op;
        let mine = op.path().map(world::norm);
        if let Some(f) = a
            .reads
            .iter()
            .chain(&b.reads)
            .find(|f| Some(*f) != mine.as_ref() && !["/proc/", "/sys/", "/dev/"].iter().any(|d| f.starts_with(d)))
        {
            return Some(ViolS { tid: a.tid, ix: a.ix, class: "needs-file".into(), msg: format!("{}: opened {} for reading", a.name, f) });
        }
        if a.res != b.res {
            let msg = format!("{}: {} ({}) in this environment, {} ({}) in a healthy one", a.name, a.res, a.msg, b.res, b.msg);
            return Some(ViolS { tid: a.tid, ix: a.ix, class: "differs".into(), msg });
        }
        if a.val != b.val || a.file != b.file {
            let msg = format!("{}: the result differs from that in a healthy environment", a.name);
            return Some(ViolS { tid: a.tid, ix: a.ix, class: "differs".into(), msg });
        }
    }
    None
}

fn is_crash(f: &FaultS) -> bool {
    matches!(f.act, ActS::Crash | ActS::CrashAfter(_))
}

fn decide_crash(s: &Scenario, r: &Report, cache: &mut Cache) -> Option<ViolS> {
    if let Some(v) = pick("C09", &r.viols) {
        return Some(v);
    }
    let mut c = s.clone();
    let item = c.threads[0].first_mut()?;
    item.env.faults.retain(|f| !is_crash(f));
    item.env.wchunk = 0;
    if let Op::SaveObj { faces, .. } | Op::SaveStl { faces, .. } = &mut item.op {
        if let Some(k) = faces.iter().position(|f| matches!(f, FaceS::Panicker { .. })) {
            faces.truncate(k);
        }
    }
    let full = cached(cache, &c, Mode { judge: true, bytes: true, ..Default::default() });
    let (a, b) = (r.ops.first()?, full.ops.first()?);
    if b.res != "ok" {
        return None;
    }
    let p = world::norm(s.threads[0][0].op.path()?);
    let old = s.files.iter().rev().find(|f| world::norm(&f.0) == p).map(|f| f.1.to_vec());
    let got = a.bytes.as_ref().map(|x| unhex(x));
    let new = b.bytes.as_ref().map(|x| unhex(x)).unwrap_or_default();
    let stl = matches!(s.threads[0][0].op, Op::SaveStl { .. });
    match check_crashed(got.as_ref(), old.as_ref(), &new, stl) {
        Ok(()) => None,
        Err(e) => Some(ViolS { tid: 0, ix: 0, class: "torn".into(), msg: format!("{}: after the crash: {}", a.name, e) }),
    }
}

fn decide_threads(s: &Scenario, r: &Report, cache: &mut Cache) -> Option<ViolS> {
    // each operation by itself, after the earlier ones of its thread on the same file
    let mut solo = |t: usize, i: usize| -> Report {
        let p = s.threads[t][i].op.path().map(world::norm);
        let items: Vec<Item> = s.threads[t][..i]
            .iter()
            .filter(|x| p.is_some() && x.op.path().map(world::norm) == p)
            .chain([&s.threads[t][i]])
            .cloned()
            .collect();
        let c = Scenario { threads: vec![items], preempt: vec![], ..s.clone() };
        cached(cache, &c, healthy_mode())
    };
    let all: Vec<(usize, usize)> = (0..s.threads.len()).flat_map(|t| (0..s.threads[t].len()).map(move |i| (t, i))).collect();
    let mut bad: Option<ViolS> = None;
    for v in &r.viols {
        let general = matches!(v.class.as_str(), "hang" | "crash" | "memory") || v.class == "panic@setup";
        let inherent = if general {
            all.iter().any(|&(t, i)| solo(t, i).viols.iter().any(|x| x.class == v.class))
        } else {
            solo(v.tid, v.ix).viols.iter().any(|x| x.class == v.class)
        };
        if !inherent {
            bad = Some(v.clone());
            break;
        }
    }
    if bad.is_some() {
        return bad;
    }
    for a in &r.ops {
        let ref_ = solo(a.tid, a.ix);
        let Some(b) = ref_.ops.last() else { continue };
        if a.res != b.res {
            let msg = format!("{}: {} ({}) with other threads running, {} ({}) alone", a.name, a.res, a.msg, b.res, b.msg);
            return Some(ViolS { tid: a.tid, ix: a.ix, class: "interference".into(), msg });
        }
        if a.ndraw == 0 && b.ndraw == 0 && (a.val != b.val || a.file != b.file) {
            let msg = format!("{}: another result than alone ({} bytes in the file, {} alone)", a.name, a.len, b.len);
            return Some(ViolS { tid: a.tid, ix: a.ix, class: "interference".into(), msg });
        }
    }
    None
}

/// Every operation of a history must do what it does as the first one of a process.
fn decide_history(s: &Scenario, r: &Report, cache: &mut Cache) -> Option<ViolS> {
    let mut solo = |i: usize| -> Report {
        // with what other programs wrote to its file before
        let p = s.threads[0][i].op.path().map(world::norm);
        let puts = s.threads[0][..i].iter().filter(|x| matches!(x.op, Op::Put { .. }) && x.op.path().map(world::norm) == p);
        let items = puts.chain([&s.threads[0][i]]).cloned().collect();
        let c = Scenario { threads: vec![items], ..s.clone() };
        cached(cache, &c, healthy_mode())
    };
    for v in &r.viols {
        let general = matches!(v.class.as_str(), "hang" | "crash" | "memory") || v.class == "panic@setup";
        let n = s.threads[0].len();
        let inherent = if general {
            (0..n).any(|i| solo(i).viols.iter().any(|x| x.class == v.class))
        } else {
            v.ix < n && solo(v.ix).viols.iter().any(|x| x.class == v.class)
        };
        if !inherent {
            return Some(v.clone());
        }
    }
    for a in &r.ops {
        let fresh = solo(a.ix);
        let Some(b) = fresh.ops.last() else { continue };
        if a.res != b.res {
            let msg =
                format!("{}: {} ({}) after {} other operations, {} ({}) in a fresh process", a.name, a.res, a.msg, a.ix, b.res, b.msg);
            return Some(ViolS { tid: a.tid, ix: a.ix, class: "history".into(), msg });
        }
        // a failed save may leave what was there before
        if a.val != b.val || (a.res == "ok" && a.file != b.file) {
            let msg = format!("{}: another result after {} other operations than in a fresh process", a.name, a.ix);
            return Some(ViolS { tid: a.tid, ix: a.ix, class: "history".into(), msg });
        }
    }
    None
}

/// The parts of a run that must repeat exactly.
pub fn fingerprint(r: &Report) -> u64 {
    hash64(
        [r.log_hash, r.events, r.switches, r.yields]
            .into_iter()
            .chain(r.ops.iter().flat_map(|o| [o.val, o.file, o.steps, o.ndraw, hash_bytes(o.res.as_bytes())]))
            .chain(r.viols.iter().map(|v| hash_bytes(v.msg.as_bytes()))),
    )
}

#[allow(dead_code)]
pub fn is_cut(m: &StepS) -> bool {
    step::is_cut(m)
}
