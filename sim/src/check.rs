//! Seeded search over workloads, schedules and faults; reporting.
use crate::plan;
use crate::run::*;
use crate::scn::*;
use crate::shrink;
use serde::{Deserialize, Serialize};
use simos::sched;
use simos::world::splitmix;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Default, Serialize, Deserialize)]
struct Stats {
    bases: u64,
    scenarios: u64,
    discards: u64,
    gen_failed: u64,
    runs: u64,
    events: u64,
    steps: u64,
    max_steps: u64,
    draws: u64,
    switches: u64,
    clock: f64,
    nontrivial: u64,
    fired: BTreeMap<String, u64>,
    unsupported: BTreeMap<String, u64>,
    env: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    outcomes: BTreeMap<String, u64>,
    calls: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    rechecked: u64,
    mismatches: u64,
    known: BTreeMap<String, u64>,
    errors: Vec<String>,
    viol: Option<(u64, u64, Scenario, ViolS)>,
    samples: Vec<String>,
    /// slowest decisions: milliseconds, base, variant
    slow: Vec<(u64, u64, u64)>,
    finished: bool,
}

impl Stats {
    fn add(&mut self, o: Stats) {
        self.bases += o.bases;
        self.scenarios += o.scenarios;
        self.discards += o.discards;
        self.gen_failed += o.gen_failed;
        self.runs += o.runs;
        self.events += o.events;
        self.steps += o.steps;
        self.max_steps = self.max_steps.max(o.max_steps);
        self.draws += o.draws;
        self.switches += o.switches;
        self.clock += o.clock;
        self.nontrivial += o.nontrivial;
        self.rechecked += o.rechecked;
        self.mismatches += o.mismatches;
        let m = |a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>| b.into_iter().for_each(|(k, v)| *a.entry(k).or_insert(0) += v);
        m(&mut self.fired, o.fired);
        m(&mut self.unsupported, o.unsupported);
        m(&mut self.env, o.env);
        m(&mut self.ops, o.ops);
        m(&mut self.outcomes, o.outcomes);
        m(&mut self.calls, o.calls);
        m(&mut self.known, o.known);
        self.hashes.extend(o.hashes);
        self.errors.extend(o.errors);
        self.samples.extend(o.samples);
        self.slow.extend(o.slow);
        self.slow.sort();
        self.slow.reverse();
        self.slow.truncate(8);
        if let Some(v) = o.viol {
            if self.viol.as_ref().map(|x| (v.0, v.1) < (x.0, x.1)).unwrap_or(true) {
                self.viol = Some(v);
            }
        }
        self.finished &= o.finished;
    }
    fn count(&mut self, s: &Scenario, v: &Verdict) {
        let r = &v.rep;
        self.scenarios += 1;
        if v.discard {
            self.discards += 1;
            return;
        }
        self.events += r.events;
        self.switches += r.switches;
        self.clock += (r.clock as f64).abs() / 1e9;
        for (k, n) in &r.fired {
            *self.fired.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &r.unsupported {
            *self.unsupported.entry(k.clone()).or_insert(0) += n;
        }
        let mut draws = 0;
        for o in &r.ops {
            draws += o.ndraw;
            self.steps += o.steps;
            self.max_steps = self.max_steps.max(o.steps);
            *self.ops.entry(o.name.clone()).or_insert(0) += 1;
            *self.outcomes.entry(if o.dead { "crashed".into() } else { o.res.clone() }).or_insert(0) += 1;
            for (k, n) in simos::world::KIND_NAMES.iter().zip(&o.counts).skip(1) {
                if *n > 0 {
                    *self.calls.entry(k.to_string()).or_insert(0) += *n as u64;
                }
            }
        }
        self.draws += draws;
        let mut inc = |k: &str| *self.env.entry(k.to_string()).or_insert(0) += 1;
        for i in s.threads.iter().flatten() {
            let e = &i.env;
            if e.wchunk > 0 {
                inc("short-writes-throughout")
            }
            if e.rchunk > 0 {
                inc("short-reads-throughout")
            }
            if e.eintr > 0 {
                inc("periodic-EINTR")
            }
            if e.cap >= 0 {
                inc("limited-disk")
            }
            if e.stat > 0 {
                inc("wrong-size-hint")
            }
            if e.cwd > 0 {
                inc(["", "cwd-read-only", "cwd-gone", "cwd-full"][e.cwd.min(3) as usize])
            }
            if e.out != 0 {
                inc("stdout-broken")
            }
            if e.err != 0 {
                inc("stderr-broken")
            }
            if e.jump != 0 {
                inc("clock-jump")
            }
            if e.vars != 0 || !e.vtext.is_empty() {
                inc("environment-variables")
            }
            if matches!(i.op, Op::Restart) {
                inc("restart")
            }
        }
        let envs: Vec<&Env> = s.threads.iter().flatten().map(|i| &i.env).filter(|e| **e != Env::default()).collect();
        if !r.fired.is_empty() || draws > 0 || r.switches > 2 || !envs.is_empty() {
            self.nontrivial += 1;
            let e = if envs.is_empty() { 0 } else { hash_bytes(&serde_json::to_vec(&envs).unwrap_or_default()) };
            self.hashes.insert(fingerprint(r) ^ e);
        }
    }
}

struct Ctl {
    min: AtomicU64,
    next: AtomicU64,
}

fn shared_page(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

fn root() -> String {
    std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into())
}

struct Known {
    prop: String,
    /// text that must occur in "class: message"
    pat: String,
    what: String,
}

/// Lines "open: property=<id> match=<text> :: <what fails>".
fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("open: property=")?;
            let (prop, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("match=")?;
            let (pat, what) = rest.split_once(" :: ")?;
            Some(Known { prop: prop.into(), pat: pat.into(), what: what.into() })
        })
        .collect()
}

fn suppressed<'a>(k: &'a [Known], prop: &str, v: &ViolS) -> Option<&'a Known> {
    let text = format!("{}: {}", v.class, v.msg);
    k.iter().find(|k| k.prop == prop && text.contains(&k.pat))
}

fn worker(prop: &str, master: u64, nb: u64, nv: u64, ctl: &Ctl, until: Instant, known: &[Known], wid: u64) -> Stats {
    let mut st = Stats { finished: true, ..Default::default() };
    'bases: loop {
        let b = ctl.next.fetch_add(1, Ordering::SeqCst);
        if b >= nb || ctl.min.load(Ordering::SeqCst) <= b {
            break;
        }
        if Instant::now() > until {
            st.finished = false;
            break;
        }
        let seed = splitmix(master ^ splitmix(b));
        let Ok(base) = std::panic::catch_unwind(|| plan::base(prop, seed)) else {
            st.gen_failed += 1;
            continue;
        };
        st.bases += 1;
        let mut cache = Cache::new();
        let mut prof = Report::default();
        for k in 0..nv {
            if k > 0 && Instant::now() > until {
                st.finished = false;
                break;
            }
            // a few variants of a run this long are enough
            if k > 3 && prop < "C05" && prof.ops.iter().map(|o| o.steps).sum::<u64>() > 150_000 {
                break;
            }
            let s = if k == 0 {
                base.clone()
            } else {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| plan::variant(&base, &prof, k))) {
                    Ok(s) => s,
                    Err(_) => {
                        st.gen_failed += 1;
                        continue;
                    }
                }
            };
            let t0 = Instant::now();
            let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decide(&s, &mut cache, k > 0, false))) {
                Ok(v) => v,
                Err(_) => {
                    st.errors.push(format!("base {} variant {}: the harness panicked", b, k));
                    continue;
                }
            };
            st.count(&s, &v);
            let ms = t0.elapsed().as_millis() as u64;
            if ms > 100 {
                st.slow.push((ms, b, k));
                st.slow.sort();
                st.slow.reverse();
                st.slow.truncate(8);
            }
            if k == 0 {
                prof = v.rep.clone();
            }
            if let Some(e) = &v.error {
                st.errors.push(format!("base {} variant {}: {}", b, k, e));
            }
            if st.samples.len() < 1 && k == 1 && wid < 4 {
                let mut t = serde_json::to_string(&s).unwrap();
                if t.len() > 900 {
                    let mut n = 900;
                    while !t.is_char_boundary(n) {
                        n -= 1;
                    }
                    t.truncate(n);
                    t.push_str("...");
                }
                st.samples.push(t);
            }
            if (b + k) % 61 == 7 && !v.discard {
                let again = decide(&s, &mut Cache::new(), true, false);
                st.rechecked += 1;
                if fingerprint(&again.rep) != fingerprint(&v.rep) {
                    st.mismatches += 1;
                }
            }
            if v.discard {
                if k == 0 {
                    continue 'bases;
                }
                continue;
            }
            if let Some(x) = v.viol {
                if let Some(k) = suppressed(known, prop, &x) {
                    *st.known.entry(k.what.clone()).or_insert(0) += 1;
                    continue;
                }
                if std::env::var("DST_SURVEY").is_ok() {
                    let t: String = format!("{}: {}", x.class, x.msg).chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                    *st.known.entry(t).or_insert(0) += 1;
                    st.samples.push(format!("HIT {} {} {}: {}", b, k, x.class, x.msg));
                    continue;
                }
                ctl.min.fetch_min(b, Ordering::SeqCst);
                st.viol = Some((b, k, s, x));
                break 'bases;
            }
        }
    }
    st.runs = unsafe { RUNS };
    st
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    class: String,
    message: String,
    seed: u64,
    found_at: String,
    fingerprint: u64,
    scenario: Scenario,
    #[serde(default)]
    trace: Vec<String>,
}

fn write_replay(prop: &str, scn: &Scenario, v: &ViolS, at: &str) -> String {
    let d = decide(scn, &mut Cache::new(), true, true);
    let f = ReplayFile {
        property: prop.into(),
        class: v.class.clone(),
        message: v.msg.clone(),
        seed: scn.seed,
        found_at: at.into(),
        fingerprint: fingerprint(&d.rep),
        scenario: scn.clone(),
        trace: d.rep.log.iter().take(400).cloned().collect(),
    };
    let dir = format!("{}/out", root());
    let _ = std::fs::create_dir_all(&dir);
    let cl: String = v.class.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let p = format!("{}/{}-{}.json", dir, prop, cl);
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&f).unwrap());
    p
}

fn read_scenario(path: &str) -> Result<(Scenario, Option<ReplayFile>), String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    if let Ok(f) = serde_json::from_str::<ReplayFile>(&t) {
        return Ok((f.scenario.clone(), Some(f)));
    }
    serde_json::from_str::<Scenario>(&t).map(|s| (s, None)).map_err(|e| format!("{}: {}", path, e))
}

pub fn replay(path: &str) -> i32 {
    let (s, f) = match read_scenario(path) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let v = decide(&s, &mut Cache::new(), true, true);
    for l in &v.rep.log {
        println!("  {}", l);
    }
    for o in &v.rep.ops {
        println!("t{} op{} {}: {} {}", o.tid, o.ix, o.name, if o.dead { "crashed" } else { &o.res }, o.msg);
    }
    if let Some(f) = &f {
        let same = f.fingerprint == fingerprint(&v.rep);
        println!("execution is {} the recorded one", if same { "identical to" } else { "different from" });
    }
    match v.viol {
        Some(x) => {
            println!("{}: {}", x.class, x.msg);
            println!("VIOLATION property={} replay={}", s.prop, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn run_file(path: &str, log: bool) -> i32 {
    let (s, _) = match read_scenario(path) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    println!("preconditions: {}", preconditions(&s));
    let v = decide(&s, &mut Cache::new(), true, log);
    println!("{}", serde_json::to_string_pretty(&v.rep).unwrap());
    println!("{:?} {:?}", v.viol, v.error);
    v.viol.is_some() as i32
}

pub fn show(prop: &str, i: &str, k: Option<&String>) -> i32 {
    let master = master(prop);
    let seed = splitmix(master ^ splitmix(i.parse().unwrap()));
    let base = plan::base(prop, seed);
    let mut s = base.clone();
    if let Some(k) = k.and_then(|k| k.parse::<u64>().ok()) {
        if k > 0 {
            let prof = decide(&base, &mut Cache::new(), true, false).rep;
            s = plan::variant(&base, &prof, k);
        }
    }
    println!("{}", serde_json::to_string_pretty(&s).unwrap());
    0
}

pub fn steptext(path: &str) -> i32 {
    let (s, _) = read_scenario(path).unwrap();
    for i in s.threads.iter().flatten() {
        if let Op::ReadStep { model, .. } = &i.op {
            println!("{}", crate::step::text(model));
        }
    }
    0
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn master(prop: &str) -> u64 {
    splitmix(env_seed() ^ hash_bytes(prop.as_bytes()))
}

pub fn check(prop: &str, opt: &dyn Fn(&str) -> Option<String>) -> i32 {
    if !plan::PROPS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let t0 = Instant::now();
    let tier = opt("--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()));
    let thorough = tier == "thorough";
    let (mut nb, nv) = plan::size(prop);
    if thorough {
        nb *= 60;
    }
    if let Some(n) = opt("--bases").and_then(|n| n.parse().ok()) {
        nb = n;
    }
    let secs: u64 = opt("--secs").and_then(|n| n.parse().ok()).unwrap_or(if thorough { 600 } else { 30 });
    let known = known();
    let master = master(prop);
    let mut found: Option<(String, Scenario, ViolS)> = None;
    let mut hit_known: BTreeMap<String, u64> = BTreeMap::new();
    unsafe {
        sched::COV = shared_page(sched::COV_MAX);
    }

    // recorded scenarios first
    let mut regressions = 0;
    let mut files: Vec<String> = std::fs::read_dir(format!("{}/regressions", root()))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path().to_string_lossy().to_string()).collect())
        .unwrap_or_default();
    files.sort();
    let mut errors: Vec<String> = Vec::new();
    for f in files {
        let name = f.rsplit('/').next().unwrap_or("");
        if !name.starts_with(prop) {
            continue;
        }
        match read_scenario(&f) {
            Ok((s, _)) => {
                regressions += 1;
                let v = decide(&s, &mut Cache::new(), true, false);
                if let Some(x) = v.viol {
                    if let Some(k) = suppressed(&known, prop, &x) {
                        *hit_known.entry(k.what.clone()).or_insert(0) += 1;
                    } else if found.is_none() {
                        found = Some((format!("regression {}", name), s, x));
                    }
                }
            }
            Err(e) => errors.push(e),
        }
    }

    let mut st = Stats { finished: true, ..Default::default() };
    if found.is_none() {
        let ctl = unsafe { &mut *(shared_page(4096) as *mut Ctl) };
        ctl.min = AtomicU64::new(u64::MAX);
        ctl.next = AtomicU64::new(0);
        let until = Instant::now() + Duration::from_secs(secs);
        let nw: u64 = opt("--workers").and_then(|n| n.parse().ok()).unwrap_or(8);
        // each worker writes its statistics to a pipe
        let mut kids = Vec::new();
        for w in 0..nw {
            unsafe {
                let mut p = [0i32; 2];
                libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                let pid = libc::fork();
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    std::panic::set_hook(Box::new(|i| {
                        if std::env::var("DST_DEBUG").is_ok() {
                            eprintln!("{}", i)
                        }
                    }));
                    let st = worker(prop, master, nb, nv, ctl, until, &known, w);
                    simos::raw::write_all(p[1], &serde_json::to_vec(&st).unwrap());
                    simos::raw::exit_group(0);
                }
                libc::close(p[1]);
                kids.push((pid, p[0]));
            }
        }
        for (w, (pid, fd)) in kids.into_iter().enumerate() {
            use std::io::Read;
            use std::os::fd::FromRawFd;
            let mut b = Vec::new();
            let _ = unsafe { std::fs::File::from_raw_fd(fd) }.read_to_end(&mut b);
            unsafe { libc::waitpid(pid, core::ptr::null_mut(), 0) };
            match serde_json::from_slice::<Stats>(&b) {
                Ok(s) => st.add(s),
                Err(_) => errors.push(format!("worker {} gave no result", w)),
            }
        }
    }
    errors.extend(st.errors.iter().cloned());
    for (k, n) in &st.known {
        *hit_known.entry(k.clone()).or_insert(0) += n;
    }
    if found.is_none() {
        if let Some((b, k, s, v)) = st.viol.take() {
            found = Some((format!("base {} variant {}", b, k), s, v));
        }
    }
    let search = t0.elapsed().as_secs_f64();
    let mut replay = None;
    if let Some((at, s, v)) = &found {
        let lim = opt("--shrink").and_then(|n| n.parse().ok()).unwrap_or(15);
        let m = shrink::shrink(s, v, Duration::from_secs(lim));
        let p = write_replay(prop, &m.scn, &m.viol, at);
        println!("{} ({}; minimised by {} of {} steps)", m.viol.class, at, m.kept, m.tries);
        println!("{}", m.viol.msg);
        println!("VIOLATION property={} replay={}", prop, p);
        replay = Some(p);
    }
    let cov = unsafe { (0..sched::COV_MAX).filter(|i| *sched::COV.add(*i) != 0).count() };
    let covn = unsafe { sched::COV_N.saturating_sub(1) };
    evidence(prop, &tier, &st, search, t0.elapsed().as_secs_f64(), regressions, (cov, covn), replay.is_some(), &errors, &hit_known, master);
    for k in known.iter().filter(|k| k.prop == prop) {
        println!("KNOWN-FINDING: property={} {}", prop, k.what);
    }
    println!(
        "{}: {} bases, {} scenarios, {} runs, {} discarded, {} distinct nontrivial, {:.1} s{}, rechecked {} mismatches {}, gen failed {}, max steps {}, coverage {}/{}",
        prop,
        st.bases,
        st.scenarios,
        st.runs,
        st.discards,
        st.hashes.len(),
        search,
        if st.finished { "" } else { " (time limit)" },
        st.rechecked,
        st.mismatches,
        st.gen_failed,
        st.max_steps,
        cov,
        covn
    );
    if opt("--verbose").is_some() {
        println!("slow {:?}", st.slow);
        for (k, n) in &st.known {
            println!("survey {:6} {}", n, k);
        }
        for h in st.samples.iter().filter(|h| h.starts_with("HIT ")) {
            println!("{}", h);
        }
        println!("fired {:?}\nenv {:?}\nops {:?}\noutcomes {:?}\nunsupported {:?}", st.fired, st.env, st.ops, st.outcomes, st.unsupported);
    }
    for e in errors.iter().take(5) {
        println!("harness error: {}", e);
    }
    if replay.is_some() {
        1
    } else if !errors.is_empty() || (st.scenarios == st.discards) {
        2
    } else {
        0
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    st: &Stats,
    search: f64,
    total: f64,
    regressions: u64,
    cov: (usize, usize),
    violated: bool,
    errors: &[String],
    known: &BTreeMap<String, u64>,
    _master: u64,
) {
    let per_hour = |n: u64| (n as f64 / search.max(1e-3) * 3600.0).round();
    let mut faults = st.fired.clone();
    for (k, n) in &st.env {
        *faults.entry(k.clone()).or_insert(0) += n;
    }
    let e = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": env_seed() as i64,
        "level": "exploration",
        "coverage": {
            "technique": "deterministic simulation with fault injection: seeded search",
            "evaluations": st.scenarios - st.discards,
            "distinct_nontrivial": st.hashes.len(),
            "rule": "cases are seeded scenarios (operations, arguments, file contents, environment, fault plan, schedule, draws); one is non-trivial when a fault was delivered, the environment was not the ordinary one, a random value was drawn or threads were switched during its run; distinct by the hash of the environment and of the whole event log, step counts, draws, results and file contents",
            "samples": st.samples,
            "simulated_runs": st.runs,
            "runs_per_hour": per_hour(st.runs),
            "seeds": st.bases,
            "seeds_per_hour": per_hour(st.bases),
            "discarded_scenarios": st.discards,
            "regressions_replayed": regressions,
            "planned_search_completed": st.finished,
            "simulated_time": {
                "events": st.events,
                "steps": st.steps,
                "longest_operation_steps": st.max_steps,
                "clock_seconds": st.clock,
                "note": "the library has no timers: time advances only by injected clock jumps; progress is measured in steps (basic blocks of geom3d and allocations)"
            },
            "random_draws_decided": st.draws,
            "thread_switches": st.switches,
            "faults_injected": faults,
            "calls_intercepted": st.calls,
            "operations": st.ops,
            "outcomes": st.outcomes,
            "unsupported_calls": st.unsupported,
            "code_reached": {"basic_block_edges_of_geom3d": cov.0, "of": cov.1},
            "determinism": {"scenarios_run_twice": st.rechecked, "mismatches": st.mismatches},
            "components": {
                "real": ["all of geom3d", "iso-10303, iso-10303-parts, svg, glam and the other dependencies", "std: File, BufWriter, LineWriter, thread"],
                "simulated": ["file system, file descriptors and working directory (in memory)", "standard streams", "clock", "environment variables", "entropy and rand's draws", "thread scheduling, futexes, memory budget"]
            },
            "harness_errors": errors,
            "known_findings_hit": known,
            "search_s": search,
        },
        "violations": violated as i64,
        "wall_s": total,
        "assumptions": [
            "the in-memory file system behaves as POSIX describes (validated against the events the library depends on: open, read, write, lseek, stat, close)",
            "threads interleave sequentially consistently at basic-block granularity",
        ],
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&e).unwrap());
}
