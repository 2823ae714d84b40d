//! Scenario plans: for every property, the base workload of a seed and the faults each variant injects into it.
use crate::gen::*;
use crate::geo::*;
use crate::run::Report;
use crate::scn::*;
use crate::stepgen;
use geom3d::Vec3;
use simos::world::splitmix;
use std::f64::consts::TAU;

pub const PROPS: [&str; 16] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"];

/// Base cases and variants per base, quick tier.
pub fn size(prop: &str) -> (u64, u64) {
    match prop {
        "C01" => (6000, 16),
        "C02" => (6000, 16),
        "C03" => (7500, 12),
        "C04" => (16000, 6),
        "C05" => (6000, 8),
        "C06" => (6000, 10),
        "C07" => (1900, 8),
        "C08" => (3600, 8),
        "C09" => (5400, 12),
        "C10" => (1000, 12),
        "C11" => (7500, 6),
        "C12" => (6000, 6),
        "C13" => (7500, 6),
        "C14" => (700, 5),
        "C15" => (1500, 4),
        "C16" => (2500, 4),
        _ => (0, 0),
    }
}

fn it(op: Op) -> Item {
    Item { op, env: Env::default() }
}

pub fn path(g: &mut G, ext: &str) -> String {
    let long = "n".repeat(g.i(60, 200));
    match g.n(24) {
        0 => format!("/data/out.{}", ext),
        1 => format!("/data/a b.{}", ext),
        2 => format!("tmp/x.{}", ext),
        3 => format!("./y.z.{}", ext),
        4 => format!("../data/q.{}", ext),
        5 => "noext".to_string(),
        6 => ".hidden".to_string(),
        7 => format!("/data/\u{00fc}ml\u{00e4}ut \u{4e2d}\u{6587}.{}", ext),
        8 => format!("/tmp/{}.{}", long, ext),
        9 => format!("/home/{}.{}", "\u{4e2d}".repeat(g.i(20, 70)), ext),
        10 => format!("tmp/../r.{}", ext),
        11 => format!("/data/name%20{{}}.{}", ext),
        _ => format!("m{}.{}", g.n(3), ext),
    }
}
fn bad_path(g: &mut G, ext: &str) -> String {
    match g.n(9) {
        0 => format!("nodir/x.{}", ext),
        1 => format!("/nowhere/x.{}", ext),
        2 => "/data".to_string(),
        3 => "..".to_string(),
        4 => "/".to_string(),
        5 => String::new(),
        6 => format!("a\0b.{}", ext),
        7 => "tmp/..".to_string(),
        _ => "/data/".to_string(),
    }
}
fn some_path(g: &mut G, ext: &str) -> String {
    if g.p(0.06) {
        bad_path(g, ext)
    } else {
        path(g, ext)
    }
}
fn junk(g: &mut G) -> Vec<u8> {
    let n = match g.n(5) {
        0 => 0,
        1 => g.i(1, 20),
        2 | 3 => g.i(50, 3000),
        _ => g.i(10_000, 60_000),
    };
    (0..n).map(|i| if i % 37 == 36 { b'\n' } else { b' ' + ((g.0 as usize + i * 7) % 90) as u8 }).collect()
}
fn leftovers(g: &mut G, s: &mut Scenario) {
    let ps: Vec<String> = s.threads.iter().flatten().filter(|i| i.op.writes()).filter_map(|i| i.op.path().map(|p| p.to_string())).collect();
    for p in ps {
        let n = simos::world::norm(&p);
        if g.p(0.4) && crate::judge::path_usable(&Op::Remove { path: p.clone() }, &Default::default()) && !s.files.iter().any(|f| f.0 == n)
        {
            s.files.push((n, Bytes::from_vec(&junk(g))));
        }
    }
    if g.p(0.15) {
        s.files.push(("/cwd/bound.obj".into(), Bytes::T("v 9 9 9\n".into())));
    }
}
fn scn(prop: &str, items: Vec<Item>) -> Scenario {
    Scenario { prop: prop.into(), seed: 0, files: vec![], shared: vec![], threads: vec![items], preempt: vec![] }
}

pub fn svg_curves(g: &mut G) -> Vec<Vec<SegS>> {
    let n = match g.n(6) {
        0 => 0,
        1 | 2 => 1,
        _ => g.i(2, 5),
    };
    // beside the page, or on a very large one
    let far = if g.p(0.12) { *g.pick(&[60.0, 300.0, 2e3, 3e4]) } else { 0.0 };
    let far = Vec3::new(g.f(-far, far), g.f(-far, far), 0.0);
    (0..n)
        .map(|_| {
            let k = match g.n(8) {
                0 => 0,
                1..=3 => 1,
                _ => g.i(2, 5),
            };
            let mut c: Vec<SegS> = Vec::new();
            for _ in 0..k {
                if g.p(0.06) {
                    c.push(g.unclamped_cubic());
                    continue;
                }
                let mut s = g.seg(true);
                s.tol = *g.pick(&[0.01, 0.05, 0.1, 0.02]);
                // continue where the last one ended
                if let (Some(p), true) = (c.last(), g.p(0.6)) {
                    let d = seg_at(p, 1.0) - seg_at(&s, 0.0);
                    s.c = translate(&s.c, d);
                }
                c.push(s);
            }
            if far != Vec3::ZERO {
                for s in &mut c {
                    s.c = translate(&s.c, far);
                }
            }
            c
        })
        .collect()
}

pub fn translate(c: &CurveS, d: Vec3) -> CurveS {
    let m = |p: &P3| a3(v3(*p) + d);
    let m4 = |p: &P4| [p[0] + d.x * p[3], p[1] + d.y * p[3], p[2] + d.z * p[3], p[3]];
    match c {
        CurveS::Line { o, d: dir } => CurveS::Line { o: m(o), d: *dir },
        CurveS::Circle { c, r, axis, refd } => CurveS::Circle { c: m(c), r: *r, axis: *axis, refd: *refd },
        CurveS::Poly { v } => CurveS::Poly { v: v.iter().map(m).collect() },
        CurveS::Bez { p } => CurveS::Bez { p: p.iter().map(m).collect() },
        CurveS::BSp { p, k, deg } => CurveS::BSp { p: p.iter().map(m).collect(), k: k.clone(), deg: *deg },
        CurveS::RBez { p } => CurveS::RBez { p: p.iter().map(m4).collect() },
        CurveS::RBSp { p, k, deg } => CurveS::RBSp { p: p.iter().map(m4).collect(), k: k.clone(), deg: *deg },
        c => c.clone(),
    }
}

pub fn svg_size(g: &mut G) -> (f64, f64) {
    match g.n(4) {
        0 => (210.0, 297.0),
        1 => (g.i(1, 2000) as f64, g.i(1, 2000) as f64),
        2 => ((g.f(1.0, 500.0) * 100.0).round() / 100.0, (g.f(1.0, 500.0) * 100.0).round() / 100.0),
        _ => (0.5, 1e4),
    }
}

// ---------------------------------------------------------------- point files

fn number_text(g: &mut G) -> String {
    let m = g.mode();
    let x = g.num(m);
    match g.n(8) {
        0 => format!("{:e}", x),
        1 => format!("{:?}", x),
        2 => format!("{:.6}", if x.abs() < 1e12 { x } else { 1.5 }),
        3 if x >= 0.0 => format!("+{}", x),
        4 => format!("{}", g.n(100000)),
        5 => format!("{}E{}", g.n(1000), g.i(0, 6)),
        6 => format!("00{}.500", g.n(50)),
        _ => format!("{}", x),
    }
}
pub fn point_file(g: &mut G) -> Vec<u8> {
    let n = match g.n(8) {
        0 => 0,
        1 => 1,
        2..=5 => g.i(2, 15),
        6 => g.i(20, 120),
        _ => g.i(200, 900),
    };
    let style = g.n(4);
    let crlf = g.p(0.15);
    let comments = if g.p(0.4) { 0.2 } else { 0.0 };
    let blanks = if g.p(0.2) { 0.1 } else { 0.0 };
    let mut o = Vec::new();
    for _ in 0..n {
        if g.p(comments) {
            o.extend_from_slice(g.pick(&["# a comment", "#", "#1 2 3", "# \u{4e2d} 1 2 3", "##"]).as_bytes());
            o.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
        }
        if g.p(blanks) {
            o.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
        }
        let sep = |g: &mut G| -> String {
            match style {
                0 => " ".into(),
                1 => ",".into(),
                2 => "\t".into(),
                _ => (*g.pick(&[" ", ",", "\t", ", ", "  ", " \t"])).into(),
            }
        };
        let mut l = String::new();
        if g.p(0.05) {
            l.push_str(&sep(g));
        }
        if g.p(0.3) {
            let k = g.n(99);
            l.push_str(g.pick(&["P1", "7", "label", "x", "\u{00fc}", "v", "1e9", "nan", "-"]));
            l.push_str(&k.to_string());
            let s = sep(g);
            l.push_str(&s);
        }
        for c in 0..3 {
            if c > 0 {
                let s = sep(g);
                l.push_str(&s);
            }
            let t = number_text(g);
            l.push_str(&t);
        }
        if g.p(0.05) {
            let s = sep(g);
            l.push_str(&s);
        }
        o.extend_from_slice(l.as_bytes());
        o.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
    }
    if g.p(0.3) {
        while matches!(o.last(), Some(b'\n' | b'\r')) {
            o.pop();
        }
    }
    o
}
/// Storage damage: truncation, flipped bytes, lost and foreign blocks.
pub fn damage(g: &mut G, mut b: Vec<u8>) -> Vec<u8> {
    let times = g.i(1, 3);
    for _ in 0..times {
        if b.is_empty() {
            b = vec![g.u() as u8];
            continue;
        }
        let i = g.n(b.len() as u64) as usize;
        match g.n(7) {
            0 | 1 => b.truncate(i),
            2 => b[i] = g.u() as u8,
            3 => b[i] = *g.pick(&[b' ', b'\n', b'-', b'.', b'e', b'#', 0, 0xff, b'x']),
            4 => {
                let j = (i + g.i(1, 600)).min(b.len());
                b.drain(i..j);
            }
            5 => {
                let j = (i + g.i(1, 200)).min(b.len());
                let v = *g.pick(&[0u8, 0xff]);
                b[i..j].iter_mut().for_each(|x| *x = v);
            }
            _ => {
                let k = g.n(9);
                let ins: &[u8] = [
                    &b"\n1 2\n"[..],
                    b"\n1 2 3 4 5\n",
                    b"\na b c\n",
                    b"\xc3\x28",
                    b"\n1e 2 3\n",
                    b"\n1 2 3x\n",
                    b"\n, , ,\n",
                    b"\nNaN inf -inf\n",
                    b"\r",
                ][k as usize];
                b.splice(i..i, ins.iter().cloned());
            }
        }
    }
    b
}

// ---------------------------------------------------------------- draws

pub fn draws(g: &mut G) -> DrawS {
    match g.n(10) {
        0 => DrawS::Fixed(0.0),
        1 => DrawS::Fixed(1.0),
        2 => DrawS::Fixed(0.5),
        3 => DrawS::Fixed(g.f(0.0, 1.0)),
        4 | 5 => DrawS::Ext(g.n(1 << 30)),
        6 => DrawS::Mix(g.n(1 << 30)),
        7 => {
            let (a, b) = (g.f(0.0, 1.0), g.f(0.0, 1.0));
            DrawS::Pair(a, b)
        }
        _ => DrawS::U(g.n(1 << 30)),
    }
}

/// A segment whose shape provokes early acceptance: S-curves, wiggles, near-straight ones.
pub fn tricky_seg(g: &mut G) -> SegS {
    if g.p(0.25) {
        return zoomed_seg(g);
    }
    let tol = g.tol();
    let l = g.f(0.5, 15.0);
    let o = v3(g.pos(8.0));
    let (n, u) = g.frame();
    let w = n.cross(u);
    let h = g.f(0.02, 1.2) * l;
    let c = match g.n(6) {
        // point-symmetric S: crosses its chord in the middle
        0 => CurveS::Bez { p: vec![a3(o), a3(o + u * (l / 3.0) + w * h), a3(o + u * (2.0 * l / 3.0) - w * h), a3(o + u * l)] },
        // S that crosses its chord off the middle
        1 => {
            let k = g.f(0.3, 1.6);
            CurveS::Bez { p: vec![a3(o), a3(o + u * (l / 3.0) + w * h), a3(o + u * (2.0 * l / 3.0) - w * h * k), a3(o + u * l)] }
        }
        // uneven speed along a straight line
        2 => CurveS::Bez { p: vec![a3(o), a3(o + u * l * g.f(0.0, 1.0)), a3(o + u * l)] },
        3 => CurveS::Bez { p: vec![a3(o), a3(o + u * l * 0.9), a3(o + u * l * 0.1), a3(o + u * l)] },
        // loop: closed curve, both ends coincide
        4 => CurveS::Bez { p: vec![a3(o), a3(o + u * l + w * h), a3(o - u * l * 0.2 + w * h), a3(o)] },
        _ => {
            let a = g.f(0.0, TAU);
            let c = CurveS::Circle { c: a3(o), r: g.f(0.05, 30.0), axis: a3(n), refd: a3(u) };
            let s = *g.pick(&[TAU, -TAU, TAU / 2.0, TAU * 0.999, 0.1, -1.0, 2.0 * TAU]);
            return SegS { c, r: (a, a + s), tol };
        }
    };
    let r = *g.pick(&[(0.0, 1.0), (1.0, 0.0), (0.0, 0.5), (0.25, 0.75), (0.9, 0.2)]);
    SegS { c, r, tol }
}

/// A piece of a curve that is large compared to the piece or to the tolerance, or ends next to a corner.
fn zoomed_seg(g: &mut G) -> SegS {
    let size = 10f64.powf(g.f(0.0, 5.0));
    let fine = (size * 10f64.powf(g.f(-13.0, -4.0))).max(1e-9);
    let (n, u) = g.frame();
    match g.n(4) {
        0 | 1 => {
            let w = (8.0 * fine / size * 10f64.powf(g.f(-0.3, 2.7))).sqrt().min(TAU);
            let a = g.f(-TAU, 2.0 * TAU);
            let c = CurveS::Circle { c: g.pos(10.0), r: size, axis: a3(n), refd: a3(u) };
            SegS { c, r: if g.p(0.5) { (a, a + w) } else { (a, a - w) }, tol: fine }
        }
        2 => {
            let k = g.i(3, 4);
            let p = g.walk(k, size, false);
            let w = (8.0 * fine / size * 10f64.powf(g.f(-0.3, 2.7))).sqrt().min(1.0);
            let a = g.f(0.0, 1.0 - w);
            SegS { c: CurveS::Bez { p }, r: if g.p(0.5) { (a, a + w) } else { (a + w, a) }, tol: fine }
        }
        _ => {
            let k = g.i(3, 7);
            let v = g.walk(k, size.min(3000.0), false);
            let l: Vec<f64> = v.windows(2).map(|w| (v3(w[1]) - v3(w[0])).length()).collect();
            let total: f64 = l.iter().sum();
            let i = g.i(1, l.len() - 1);
            let at = l[..i].iter().sum::<f64>() / total + g.f(-1.0, 1.0) * 10f64.powf(g.f(-9.0, -3.0));
            let tol = size.min(3000.0) * 10f64.powf(g.f(-7.0, -3.0));
            let at = at.clamp(0.01, 0.99);
            let r = if g.p(0.5) { (0.0, at) } else { (at, 1.0) };
            SegS { c: CurveS::Poly { v }, r: if g.p(0.3) { (r.1, r.0) } else { r }, tol }
        }
    }
}

fn loop_to(s: &[SegS]) -> Vec<SegS> {
    s.to_vec()
}

/// Outlines no caller should pass: what they give is not specified, but it may not depend on the environment either.
fn messy(g: &mut G, mut b: Vec<Vec<SegS>>) -> Vec<Vec<SegS>> {
    for _ in 0..g.i(1, 2) {
        let i = g.n(b.len() as u64) as usize;
        match g.n(6) {
            0 | 1 | 2 => b = b.iter().map(|l| rev_loop(l)).collect(),
            3 => b[i] = rev_loop(&b[i]),
            4 => {
                if b[i].len() > 2 {
                    let j = g.n(b[i].len() as u64) as usize;
                    b[i].remove(j);
                }
            }
            _ => {
                let j = g.n(b[i].len() as u64) as usize;
                let e = b[i][j].clone();
                b[i].insert(j, e);
            }
        }
    }
    b
}
fn rev_loop(l: &[SegS]) -> Vec<SegS> {
    l.iter().rev().map(|s| SegS { r: (s.r.1, s.r.0), ..s.clone() }).collect()
}

/// Geometry operation for environment and thread tests.
fn geometry_op(g: &mut G) -> Op {
    match g.n(17) {
        15 => loop {
            let (c, r) = g.curve(false);
            let ok = match &c {
                CurveS::BSp { deg, .. } => *deg >= 1,
                CurveS::Bez { p } => p.len() >= 2,
                _ => false,
            };
            if ok {
                let w = (r.1 - r.0) * 1e-3;
                let u = (0..g.i(1, 3)).map(|_| g.f(r.0.min(r.1) + w.abs(), r.0.max(r.1) - w.abs())).collect();
                return Op::Algebra { c, u };
            }
        },
        16 => {
            let s = g.sheet();
            let uv = surf_params(g, &s);
            Op::SurfAlgebra { s, uv }
        }
        14 => {
            let h = g.p(0.3);
            let (s, b) = g.planar(0, h);
            Op::Trim { s, b: messy(g, b) }
        }
        0 => {
            let (s, b) = g.planar(0, false);
            Op::Trim { s, b }
        }
        1 => {
            let (s, b) = g.planar(0, true);
            Op::Mesh { face: FaceS::Trim { s, b } }
        }
        2 => {
            let (s, b) = g.cylindrical(false);
            Op::Trim { s, b }
        }
        3 | 4 => {
            let h = g.p(0.4);
            let (s, b) = g.splined(h);
            Op::Mesh { face: FaceS::Trim { s, b } }
        }
        5 => Op::Mesh { face: g.patch() },
        6 => Op::Sample { seg: g.seg(false) },
        7 => Op::Points { seg: g.seg(false) },
        8 => Op::Polygon { l: g.space_loop() },
        9 | 10 => {
            let (c, r) = g.curve(false);
            let u = (0..g.i(1, 12)).map(|_| g.f(r.0, r.1)).collect();
            Op::EvalCurve { c, u }
        }
        11 => {
            let (c, r) = proj_curve(g);
            let p = (0..g.i(1, 5)).map(|_| near_point(g, &c, r)).collect();
            Op::ProjCurve { c, p }
        }
        12 => {
            let s = g.any_surf();
            let uv = surf_params(g, &s);
            Op::EvalSurf { s, uv }
        }
        _ => {
            let s = match g.n(3) {
                0 => g.plane(),
                1 => g.cyl(),
                _ => g.sheet(),
            };
            let uv = surf_params(g, &s);
            let p = uv.iter().map(|q| a3(eval_surf(&s, q[0], q[1]))).collect();
            Op::ProjSurf { s, p }
        }
    }
}
/// curves that support projection
fn proj_curve(g: &mut G) -> (CurveS, (f64, f64)) {
    loop {
        let (c, r) = g.curve(false);
        match c {
            CurveS::Line { .. } | CurveS::Circle { .. } | CurveS::Poly { .. } => return (c, r),
            CurveS::BSp { deg, .. } if deg >= 2 => return (c, r),
            _ => {}
        }
    }
}
fn near_point(g: &mut G, c: &CurveS, r: (f64, f64)) -> P3 {
    let t = g.f(0.0, 1.0);
    let p = seg_at(&SegS { c: c.clone(), r, tol: 0.01 }, t);
    a3(p + g.unit() * g.f(0.0, 0.05))
}
fn surf_params(g: &mut G, s: &SurfS) -> Vec<[f64; 2]> {
    let (u, v) = g.surf_range(s);
    (0..g.i(1, 10)).map(|_| [g.f(u.0, u.1), g.f(v.0, v.1)]).collect()
}

/// Words the library compares text with, as values for environment variables.
fn words() -> &'static Vec<String> {
    static W: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let (mut dirs, mut files) = (vec![std::path::PathBuf::from("/repo/src")], vec![]);
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p)
                } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    files.push(p)
                }
            }
        }
        let mut w = Vec::new();
        for f in files {
            let t = std::fs::read_to_string(f).unwrap_or_default();
            for l in t.lines().filter(|l| !l.trim_start().starts_with("//")) {
                for x in l.split('"').skip(1).step_by(2) {
                    if (1..=20).contains(&x.len()) && x.bytes().all(|b| b.is_ascii_alphanumeric() || b"_-.".contains(&b)) {
                        w.push(x.to_string());
                    }
                }
            }
        }
        w.sort();
        w.dedup();
        w
    })
}

// ---------------------------------------------------------------- base workloads

pub fn base(prop: &str, seed: u64) -> Scenario {
    let mut g = G::new(seed);
    let g = &mut g;
    // now and then more of everything than fits 16 bits
    let huge = match prop {
        "C01" | "C02" => g.p(0.003),
        "C03" | "C04" => g.p(0.0012),
        _ => false,
    };
    let mut s = match prop {
        "C01" | "C02" if huge => {
            let flat = SurfS::Plane { o: g.pos(9.0), n: [0.0, 0.0, 1.0], u: [1.0, 0.0, 0.0] };
            let d = [(32_780, 1), (1, 32_780), (2, 32_780), (32_780, 2)][g.n(4) as usize];
            let faces = vec![FaceS::Patch { s: flat, r: ((0.0, 9.0), (0.0, 5.0)), d }, g.face(true, true)];
            let op = match (prop, g.p(0.5)) {
                ("C02", _) => Op::SaveStl { faces, path: path(g, "stl") },
                _ => Op::SaveObj { faces, path: path(g, "obj") },
            };
            scn(prop, vec![it(op)])
        }
        "C03" if huge => {
            let n = g.i(65_530, 65_600);
            let q: Vec<P3> = (0..n).map(|i| [i as f64, (i % 7) as f64, -0.5]).collect();
            let op = match g.n(4) {
                0 => Op::SavePts { p: q, path: path(g, "xyz") },
                1 => Op::SavePtsN { p: q.iter().map(|p| (*p, [0.0, 0.0, 1.0])).collect(), path: path(g, "xyz") },
                2 => Op::SavePts2 { p: q.iter().map(|p| [p[0], p[1]]).collect(), path: path(g, "csv") },
                _ => Op::SaveBound { p: q, path: path(g, "obj") },
            };
            scn(prop, vec![it(op)])
        }
        "C04" if huge => {
            let p = path(g, "xyz");
            let mut s = scn(prop, vec![it(Op::LoadPts { path: p.clone() })]);
            let b: String = (0..g.i(65_530, 65_600)).map(|i| format!("{} {} 0.5\n", i, i % 7)).collect();
            s.files.push((simos::world::norm(&p), Bytes::from_vec(b.as_bytes())));
            s
        }
        "C01" => {
            let op = match g.n(10) {
                0..=4 => Op::SaveObj { faces: g.faces(false, false), path: some_path(g, "obj") },
                5..=7 => Op::MeshObj { mesh: g.mesh(false), path: some_path(g, "obj") },
                _ => {
                    let mesh = g.mesh(false);
                    let vs = *g.pick(&[0u32, 1, 1, 5, 1000, 4_000_000_000]);
                    let ns = *g.pick(&[0u32, 1, 1, 7, 100000]);
                    Op::WriteObj { mesh, vs, ns, path: path(g, "obj") }
                }
            };
            scn(prop, vec![it(op)])
        }
        "C02" => scn(prop, vec![it(Op::SaveStl { faces: g.faces(true, false), path: some_path(g, "stl") })]),
        "C03" => {
            let n = g.len();
            let op = match g.n(4) {
                0 => Op::SavePts { p: g.pts(n), path: some_path(g, "xyz") },
                1 => {
                    let (a, b) = (g.pts(n), g.pts(n));
                    Op::SavePtsN { p: a.into_iter().zip(b).collect(), path: some_path(g, "xyz") }
                }
                2 => Op::SavePts2 { p: g.pts(n).into_iter().map(|p| [p[0], p[1]]).collect(), path: some_path(g, "csv") },
                _ => Op::SaveBound { p: g.pts(n), path: some_path(g, "obj") },
            };
            scn(prop, vec![it(op)])
        }
        "C04" => {
            let p = some_path(g, "xyz");
            let mut s = scn(prop, vec![it(Op::LoadPts { path: p.clone() })]);
            let mut b = point_file(g);
            if g.p(0.5) {
                b = damage(g, b);
            }
            if g.p(0.96) && crate::judge::path_usable(&Op::Remove { path: p.clone() }, &Default::default()) {
                s.files.push((simos::world::norm(&p), Bytes::from_vec(&b)));
            }
            s
        }
        "C05" => {
            let names: Vec<String> = (0..g.i(1, 3)).map(|i| format!("{}f{}", g.pick(&["", "/data/", "tmp/"]), i)).collect();
            let mut items: Vec<Item> = Vec::new();
            for _ in 0..g.i(3, 9) {
                let f = g.pick(&names).clone();
                let n = match g.n(5) {
                    0 => 0,
                    1 => g.i(1, 2),
                    2 | 3 => g.i(3, 20),
                    _ => g.i(30, 120),
                };
                let op = match g.n(14) {
                    0..=2 => Op::SavePts { p: g.pts(n), path: format!("{}.xyz", f) },
                    3..=5 => Op::LoadPts { path: format!("{}.xyz", f) },
                    6 => Op::SavePts2 { p: g.pts(n).into_iter().map(|p| [p[0], p[1]]).collect(), path: format!("{}.csv", f) },
                    7 => Op::SaveBound { p: g.pts(n.max(1)), path: format!("{}.obj", f) },
                    8 | 9 => Op::MeshObj { mesh: g.small_mesh(), path: format!("{}.obj", f) },
                    10 => {
                        let k = g.i(0, 2);
                        Op::SaveStl { faces: (0..k).map(|_| FaceS::Mesh(g.mesh(true))).collect(), path: format!("{}.stl", f) }
                    }
                    11 => {
                        let k = g.i(0, 2);
                        Op::SaveObj { faces: (0..k).map(|_| FaceS::Mesh(g.small_mesh())).collect(), path: format!("{}.obj", f) }
                    }
                    12 => {
                        let (a, b) = (g.pts(n), g.pts(n));
                        Op::SavePtsN { p: a.into_iter().zip(b).collect(), path: format!("{}.xyn", f) }
                    }
                    _ => {
                        let mut c = svg_curves(g);
                        c.truncate(2);
                        Op::SaveSvg { curves: c, size: svg_size(g), path: format!("{}.svg", f) }
                    }
                };
                items.push(it(op));
                if g.p(0.06) {
                    items.push(it(Op::Restart));
                }
                if g.p(0.05) {
                    let f = g.pick(&names).clone();
                    items.push(it(Op::Remove { path: format!("{}.{}", f, g.pick(&["xyz", "obj"])) }));
                }
            }
            let mut s = scn(prop, items);
            if g.p(0.5) {
                let b = point_file(g);
                s.files.push((simos::world::norm(&format!("{}.xyz", names[0])), Bytes::from_vec(&b)));
            }
            s
        }
        "C06" => scn(prop, vec![it(Op::SaveSvg { curves: svg_curves(g), size: svg_size(g), path: some_path(g, "svg") })]),
        "C07" => {
            let m = stepgen::model(g);
            let p = if g.p(0.04) { "missing.stp".to_string() } else { some_path(g, "stp") };
            scn(prop, vec![it(Op::ReadStep { path: p, model: m })])
        }
        "C08" => {
            let mut items = Vec::new();
            let mut files = Vec::new();
            for k in 0..g.i(1, 3) {
                let op = match g.n(11) {
                    10 if g.p(0.3) => {
                        let path = format!("/data/in{}.xyz", k);
                        files.push((simos::world::norm(&path), Bytes::from_vec(&point_file(g))));
                        Op::LoadPts { path }
                    }
                    10 => Op::ReadStep { path: path(g, "stp"), model: stepgen::small(g) },
                    0 => Op::SaveObj { faces: g.faces(true, true), path: path(g, "obj") },
                    1 => Op::SaveStl { faces: g.faces(true, true), path: path(g, "stl") },
                    2 => Op::SaveSvg { curves: svg_curves(g), size: svg_size(g), path: path(g, "svg") },
                    3 => {
                        let n = g.i(0, 12);
                        let p = g.pts(n);
                        let path = path(g, "xyz");
                        match g.n(3) {
                            0 => Op::SavePts { p, path },
                            1 => Op::SaveBound { p, path },
                            _ => Op::SavePts2 { p: p.iter().map(|p| [p[0], p[1]]).collect(), path },
                        }
                    }
                    4 => Op::MeshObj { mesh: g.small_mesh(), path: path(g, "obj") },
                    _ => geometry_op(g),
                };
                items.push(it(op));
            }
            for i in items.iter_mut() {
                i.env.draws = draws(g);
                // the working directory does not matter to an absolute path
                if let Some(p) = i.op.path_mut() {
                    if !p.contains('/') && g.p(0.5) {
                        *p = format!("/data/{}", p);
                    }
                }
            }
            Scenario { files, ..scn(prop, items) }
        }
        "C09" => {
            let op = match g.n(12) {
                0..=3 => {
                    let mut f = g.faces(true, true);
                    if g.p(0.2) {
                        let at = g.n(f.len() as u64 + 1) as usize;
                        f.insert(at, FaceS::Panicker { k: 1 });
                    }
                    Op::SaveStl { faces: f, path: path(g, "stl") }
                }
                4..=6 => {
                    let mut f = g.faces(false, true);
                    if g.p(0.2) {
                        let at = g.n(f.len() as u64 + 1) as usize;
                        f.insert(at, FaceS::Panicker { k: 1 });
                    }
                    Op::SaveObj { faces: f, path: path(g, "obj") }
                }
                7 => Op::MeshObj { mesh: g.mesh(false), path: path(g, "obj") },
                8 => Op::SaveSvg { curves: svg_curves(g), size: svg_size(g), path: path(g, "svg") },
                9 => {
                    let n = g.len();
                    Op::SavePts { p: g.pts(n), path: path(g, "xyz") }
                }
                10 => {
                    let n = g.len();
                    let (a, b) = (g.pts(n), g.pts(n));
                    Op::SavePtsN { p: a.into_iter().zip(b).collect(), path: path(g, "xyz") }
                }
                _ => {
                    let n = g.len();
                    if g.p(0.5) {
                        Op::SaveBound { p: g.pts(n), path: path(g, "obj") }
                    } else {
                        Op::SavePts2 { p: g.pts(n).iter().map(|p| [p[0], p[1]]).collect(), path: path(g, "csv") }
                    }
                }
            };
            let mut i = it(op);
            i.env.draws = draws(g);
            scn(prop, vec![i])
        }
        "C10" => threads(g),
        "C16" => history(g),
        "C11" => {
            let items = (0..g.i(3, 6))
                .map(|_| {
                    let seg = if g.p(0.5) { tricky_seg(g) } else { g.seg(false) };
                    if g.p(0.6) {
                        it(Op::Sample { seg })
                    } else {
                        it(Op::Points { seg })
                    }
                })
                .collect();
            scn(prop, items)
        }
        "C12" => {
            let items = (0..g.i(1, 3)).map(|_| it(Op::Polygon { l: loop_to(&g.space_loop()) })).collect();
            scn(prop, items)
        }
        "C13" => {
            let h = g.p(0.65);
            let (s, b) = g.planar(1, h);
            scn(prop, vec![it(if g.p(0.5) { Op::Trim { s, b } } else { Op::Mesh { face: FaceS::Trim { s, b } } })])
        }
        "C14" => {
            let h = g.p(0.5);
            let (s, b) = g.cylindrical(h);
            scn(prop, vec![it(if g.p(0.5) { Op::Trim { s, b } } else { Op::Mesh { face: FaceS::Trim { s, b } } })])
        }
        "C15" => {
            let h = g.p(0.5);
            let (s, b) = g.splined(h);
            scn(prop, vec![it(if g.p(0.5) { Op::Trim { s, b } } else { Op::Mesh { face: FaceS::Trim { s, b } } })])
        }
        p => panic!("unknown property {}", p),
    };
    s.seed = seed;
    if s.threads.len() == 1 && !matches!(prop, "C08" | "C09" | "C04" | "C07" | "C16") {
        let d: Vec<DrawS> = s.threads[0].iter().map(|_| draws(g)).collect();
        for (i, d) in s.threads[0].iter_mut().zip(d) {
            i.env.draws = d;
        }
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C06" | "C08" | "C09") {
        leftovers(g, &mut s);
    }
    s
}

/// A long history of calls in one process: few different ones, many look alike, some fail.
fn history(g: &mut G) -> Scenario {
    let mut s = scn("C16", vec![]);
    s.shared = shared(g);
    let fixed = if g.p(0.5) { 0.5 } else { g.f(0.05, 0.95) };
    let mut pool: Vec<Op> = Vec::new();
    let fav = g.n(12);
    for k in 0..g.i(2, 4) {
        let kind = if g.p(0.5) { fav } else { g.n(12) };
        let n = g.i(1, 12);
        let op = match kind {
            0 | 1 => {
                let mut faces: Vec<FaceS> = (0..g.i(1, 3)).map(|_| g.face(true, true)).collect();
                if g.p(0.15) {
                    faces.push(FaceS::Panicker { k: 0 });
                }
                if kind == 0 {
                    Op::SaveObj { faces, path: format!("h{}.obj", k) }
                } else {
                    Op::SaveStl { faces, path: format!("h{}.stl", k) }
                }
            }
            2 => {
                let p = g.pts(n);
                let path = format!("/data/h{}.xyz", k);
                match g.n(3) {
                    0 => Op::SavePts { p, path },
                    1 => Op::SaveBound { p, path },
                    _ => Op::SavePts2 { p: p.iter().map(|p| [p[0], p[1]]).collect(), path },
                }
            }
            3 => {
                let path = format!("/data/in{}.xyz", k);
                let b = point_file(g);
                s.files.push((simos::world::norm(&path), Bytes::from_vec(&b)));
                Op::LoadPts { path }
            }
            4 => Op::ReadStep { path: "m.stp".to_string(), model: stepgen::small(g) },
            5 => Op::SaveSvg { curves: svg_curves(g), size: svg_size(g), path: format!("h{}.svg", k) },
            6 | 7 => shared_op(g, &s.shared, format!("s{}.obj", k)),
            _ => geometry_op(g),
        };
        pool.push(op);
    }
    let mut twins: Vec<Vec<Op>> = Vec::new();
    for k in 0..pool.len() {
        for _ in 0..g.i(0, 2) {
            if let Op::LoadPts { path } = &pool[k] {
                let b = match s.files.iter().find(|f| f.0 == simos::world::norm(path)) {
                    Some(f) if g.p(0.6) => other_digits(g, &f.1.to_vec()),
                    _ => point_file(g),
                };
                let put = Op::Put { path: path.clone(), b: Bytes::from_vec(&b) };
                twins.push(vec![pool[k].clone(), put.clone(), pool[k].clone()]);
                pool.push(put);
                continue;
            }
            let x = sibling(g, &pool[k]);
            if crate::valid::op(&x, &s.shared) {
                twins.push(vec![pool[k].clone(), x.clone()]);
                pool.push(x);
            }
        }
    }
    let mut ops: Vec<Op> = Vec::new();
    for _ in 0..g.i(2, 6) {
        if !twins.is_empty() && g.p(0.5) {
            ops.extend(g.pick(&twins).iter().cloned());
        } else {
            ops.push(g.pick(&pool).clone());
        }
    }
    let mut items = Vec::new();
    for op in ops {
        let mut i = it(op);
        i.env.draws = DrawS::Fixed(fixed);
        items.push(i);
    }
    s.threads = vec![items];
    s
}
/// An operation that looks like another one: the same sizes and ranges, other numbers or another order.
fn sibling(g: &mut G, op: &Op) -> Op {
    let mut x = op.clone();
    let d = g.unit() * *g.pick(&[1e-9, 1e-3, 0.5, 3.0]);
    let mv = |p: &mut P3| *p = a3(v3(*p) + d);
    let seg = |s: &mut SegS| s.c = translate(&s.c, d);
    fn shift(s: &mut SurfS, d: Vec3) {
        match s {
            SurfS::Plane { o, .. } | SurfS::Cyl { o, .. } => *o = a3(v3(*o) + d),
            SurfS::BSp { p, .. } => p.iter_mut().flatten().for_each(|p| *p = a3(v3(*p) + d)),
            _ => {}
        }
    }
    match &mut x {
        Op::EvalCurve { u, .. } if g.p(0.4) => {
            let e = *g.pick(&[1e-12, 1e-9, 1e-7, 1e-4, -1e-9, -1e-7]);
            u.reverse();
            u.iter_mut().for_each(|u| *u += e);
        }
        Op::EvalSurf { uv, .. } if g.p(0.4) => {
            let e = *g.pick(&[1e-12, 1e-9, 1e-7, 1e-4, -1e-9, -1e-7]);
            uv.reverse();
            uv.iter_mut().flatten().for_each(|u| *u += e);
        }
        Op::EvalCurve { c, u } | Op::Algebra { c, u } => {
            if g.p(0.5) {
                u.reverse();
            }
            match c {
                CurveS::BSp { k, deg, .. } if g.p(0.5) => move_knots(g, k, *deg as usize),
                CurveS::RBSp { k, deg, .. } if g.p(0.5) => move_knots(g, k, *deg as usize),
                _ => *c = translate(c, d),
            }
        }
        Op::ProjCurve { c, p } => {
            if g.p(0.5) {
                *c = translate(c, d)
            }
            p.iter_mut().for_each(mv)
        }
        Op::EvalSurf { s, uv } | Op::SurfAlgebra { s, uv } => {
            if g.p(0.5) {
                uv.reverse();
            }
            match s {
                SurfS::BSp { ku, kv, deg, .. } if g.p(0.5) => {
                    move_knots(g, ku, deg.0 as usize);
                    move_knots(g, kv, deg.1 as usize);
                }
                _ => shift(s, d),
            }
        }
        Op::ReadStep { model, .. } => *model = stepgen::small(g),
        Op::ProjSurf { p, .. } => p.reverse(),
        Op::Sample { seg: s } | Op::Points { seg: s } => match g.n(3) {
            0 => seg(s),
            1 => s.tol *= *g.pick(&[0.5, 2.0, 1.0 + 1e-9]),
            _ => s.r = (s.r.1, s.r.0),
        },
        Op::Polygon { l } => {
            if g.p(0.5) {
                l.iter_mut().for_each(seg)
            } else {
                l.rotate_left(1)
            }
        }
        Op::Trim { s, b } | Op::Mesh { face: FaceS::Trim { s, b } } => {
            if g.p(0.5) && matches!(s, SurfS::Plane { .. } | SurfS::Cyl { .. }) {
                shift(s, d);
                b.iter_mut().flatten().for_each(seg);
            } else {
                b.iter_mut().for_each(|l| l.rotate_left(1));
            }
        }
        Op::SavePts { p, .. } | Op::SaveBound { p, .. } => {
            if g.p(0.5) {
                p.iter_mut().for_each(mv)
            } else {
                p.pop();
            }
        }
        Op::SaveSvg { curves, size, .. } => {
            if g.p(0.5) {
                curves.reverse();
            } else {
                size.0 *= 2.0;
            }
        }
        Op::SaveObj { faces, .. } | Op::SaveStl { faces, .. } => {
            if g.p(0.5) {
                faces.reverse();
            } else {
                faces.pop();
            }
        }
        _ => {}
    }
    x
}
/// The same text with some digits changed.
fn other_digits(g: &mut G, b: &[u8]) -> Vec<u8> {
    let n = b.iter().filter(|c| c.is_ascii_digit()).count().max(1);
    let mut o = b.to_vec();
    for _ in 0..g.i(1, 3) {
        let k = g.n(n as u64) as usize;
        let d = b'0' + g.n(10) as u8;
        if let Some(c) = o.iter_mut().filter(|c| c.is_ascii_digit()).nth(k) {
            *c = d;
        }
    }
    o
}
/// Other inner knots, the same number and range.
fn move_knots(g: &mut G, k: &mut [f64], deg: usize) {
    let n = k.len();
    let (a, b) = (k[0], k[n - 1]);
    if n > 2 * deg + 2 && a < b {
        let e = g.f(0.5, 2.0);
        for x in &mut k[deg + 1..n - deg - 1] {
            *x = (a + (b - a) * ((*x - a) / (b - a)).powf(e)).clamp(a, b);
        }
    }
}
fn shared(g: &mut G) -> Vec<Shared> {
    (0..g.i(1, 3))
        .map(|_| match g.n(7) {
            0 | 1 => Shared::Curve(g.curve(false).0),
            2 => Shared::Surf(g.sheet()),
            3 => Shared::Surf(if g.p(0.5) { g.plane() } else { g.cyl() }),
            4 => {
                let FaceS::Patch { s, r, d } = g.patch() else { unreachable!() };
                Shared::Patch { s, r, d }
            }
            5 => Shared::Mesh(g.small_mesh()),
            _ => Shared::Points({
                let n = g.i(1, 8);
                g.pts(n)
            }),
        })
        .collect()
}

/// Concurrent workload: threads with their own data and shared read-only objects.
fn threads(g: &mut G) -> Scenario {
    let mut s = scn("C10", vec![]);
    s.shared = shared(g);
    let nt = g.i(2, 4);
    // threads tend to do the same kinds of things at once
    let fav = g.n(12);
    s.threads = vec![];
    for t in 0..nt {
        let mut items = Vec::new();
        let dir = *g.pick(&["/data/", "", "tmp/", "/tmp/"]);
        for k in 0..g.i(1, 3) {
            let kind = if g.p(0.6) { fav } else { g.n(12) };
            // same base names in different directories, or different names in one
            let (dir, stem) =
                if g.p(0.5) { (["/data/", "/tmp/", "/home/", "tmp/"][t], format!("out{}", k)) } else { (dir, format!("t{}_{}", t, k)) };
            let op = match kind {
                0 => Op::SaveObj { faces: (0..g.i(1, 3)).map(|_| g.face(true, true)).collect(), path: format!("{}{}.obj", dir, stem) },
                1 => Op::SaveStl { faces: (0..g.i(1, 3)).map(|_| g.face(true, true)).collect(), path: format!("{}{}.stl", dir, stem) },
                2 => {
                    let n = g.i(1, 12);
                    let p = g.pts(n);
                    let path = format!("{}{}.xyz", dir, stem);
                    match g.n(3) {
                        0 => Op::SavePts { p, path },
                        1 => Op::SaveBound { p, path },
                        _ => Op::SavePts2 { p: p.iter().map(|p| [p[0], p[1]]).collect(), path },
                    }
                }
                3 => {
                    let path = format!("{}{}.in", dir, stem);
                    let b = point_file(g);
                    s.files.push((simos::world::norm(&path), Bytes::from_vec(&b)));
                    Op::LoadPts { path }
                }
                4 if k == 0 => Op::ReadStep { path: format!("{}{}.stp", dir, stem), model: stepgen::small(g) },
                5 => Op::SaveSvg { curves: svg_curves(g), size: svg_size(g), path: format!("{}{}.svg", dir, stem) },
                6..=8 => geometry_op(g),
                _ => shared_op(g, &s.shared, format!("{}{}.obj", dir, stem)),
            };
            let mut i = it(op);
            i.env.draws = draws(g);
            items.push(i);
        }
        s.threads.push(items);
    }
    s
}

fn shared_op(g: &mut G, sh: &[Shared], path: String) -> Op {
    let i = g.n(sh.len() as u64) as usize;
    match &sh[i] {
        Shared::Curve(c) => {
            let r = match c {
                CurveS::BSp { k, .. } | CurveS::RBSp { k, .. } => (k[0], k[k.len() - 1]),
                CurveS::Circle { .. } => (0.3, 5.0),
                _ => (0.0, 1.0),
            };
            match g.n(3) {
                0 => Op::ShEval { i, u: (0..g.i(1, 10)).map(|_| [g.f(r.0, r.1), 0.0]).collect() },
                1 => Op::ShPoints { i, r, tol: g.tol() },
                _ => {
                    let ok = match c {
                        CurveS::Line { .. } | CurveS::Circle { .. } | CurveS::Poly { .. } => true,
                        CurveS::BSp { deg, .. } => *deg >= 2,
                        _ => false,
                    };
                    if ok {
                        let p = (0..g.i(1, 4)).map(|_| near_point(g, c, r)).collect();
                        Op::ShProj { i, p }
                    } else {
                        Op::ShPoints { i, r, tol: g.tol() }
                    }
                }
            }
        }
        Shared::Surf(s) => {
            let uv = surf_params(g, s);
            if g.p(0.5) {
                Op::ShEval { i, u: uv }
            } else {
                let p = uv.iter().map(|q| a3(eval_surf(s, q[0], q[1]))).collect();
                Op::ShProj { i, p }
            }
        }
        Shared::Patch { .. } => Op::ShMesh { i },
        Shared::Mesh(_) => {
            if g.p(0.4) {
                Op::ShMesh { i }
            } else {
                Op::ShSave { i, fmt: 0, path }
            }
        }
        Shared::Points(_) => Op::ShSave { i, fmt: g.n(2) as u8, path },
    }
}

// ---------------------------------------------------------------- variants

const WRITE_ERR: [i32; 8] = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EPIPE, libc::EAGAIN, libc::EBADF, libc::ENOSPC];
const OPEN_ERR: [i32; 7] = [libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EROFS, libc::ENFILE, libc::EIO, libc::EINTR];

fn nth(g: &mut G, n: u32) -> u32 {
    if n == 0 {
        return 0;
    }
    match g.n(5) {
        0 => 0,
        1 => n - 1,
        2 if n >= 2 => n - 2,
        _ => g.n(n as u64) as u32,
    }
}

/// Faults for one operation, aimed by the profile of its clean run.
fn inject(g: &mut G, e: &mut Env, op: &Op, counts: &[u32], len: u64) {
    let c = |k: &str| counts[simos::world::KIND_NAMES.iter().position(|x| *x == k).unwrap()];
    let f = |kind: &str, nth: u32, act: ActS| FaultS { kind: kind.into(), nth, act };
    let writes = op.writes();
    if writes {
        match g.n(22) {
            0 | 1 => e.wchunk = *g.pick(&[1, 2, 3, 5, 7, 13, 16, 49, 50, 51, 100, 1000, 4096]),
            2 => e.eintr = *g.pick(&[2, 2, 3, 5]),
            3 => {
                e.wchunk = *g.pick(&[1, 3, 7, 64]);
                e.eintr = *g.pick(&[2, 3]);
            }
            4..=6 => {
                e.cap = match g.n(6) {
                    0 => 0,
                    1 => len.saturating_sub(1) as i64,
                    2 => len.saturating_sub(g.n(60)) as i64,
                    _ => g.n(len + 1) as i64,
                }
            }
            7..=9 => {
                let k = nth(g, c("write"));
                let er = *g.pick(&WRITE_ERR);
                e.faults.push(f("write", k, ActS::Errno(er)));
            }
            10 => {
                let k = nth(g, c("write"));
                let er = *g.pick(&WRITE_ERR);
                e.faults.push(f("write", k, ActS::Dead(er)));
            }
            11 => {
                let k = nth(g, c("write"));
                e.faults.push(f("write", k, ActS::Zero));
            }
            12 | 13 => {
                for _ in 0..g.i(1, 3) {
                    let k = nth(g, c("write"));
                    let n = *g.pick(&[1, 2, 4, 9, 30, 200]);
                    e.faults.push(f("write", k, ActS::Short(n)));
                }
            }
            14 => {
                for _ in 0..g.i(1, 3) {
                    let k = nth(g, c("write"));
                    e.faults.push(f("write", k, ActS::Errno(libc::EINTR)));
                }
            }
            15 => {
                let er = *g.pick(&OPEN_ERR);
                e.faults.push(f("open", 0, ActS::Errno(er)));
            }
            16 | 17 if c("seek") > 0 => {
                let k = nth(g, c("seek"));
                let er = *g.pick(&[libc::ESPIPE, libc::EIO, libc::EINVAL]);
                e.faults.push(f("seek", k, ActS::Errno(er)));
            }
            18 => {
                let k = nth(g, c("any"));
                let er = *g.pick(&WRITE_ERR);
                e.faults.push(f("any", k, ActS::Errno(er)));
            }
            19 => {
                // tear one write, then fail the rest of it
                let k = nth(g, c("write"));
                let n = *g.pick(&[1, 3, 10, 49, 83]);
                e.faults.push(f("write", k, ActS::Short(n)));
                let er = *g.pick(&WRITE_ERR);
                e.faults.push(f("write", k + 1, ActS::Errno(er)));
            }
            20 => e.cwd = g.i(1, 3) as u8,
            _ => {
                e.wchunk = *g.pick(&[1, 8, 100]);
                e.cap = g.n(len + 1) as i64;
            }
        }
    } else if matches!(op, Op::LoadPts { .. } | Op::ReadStep { .. }) {
        let chunk = |g: &mut G| {
            if len > 20_000 {
                *g.pick(&[64, 512, 777, 4096])
            } else {
                *g.pick(&[1, 2, 3, 7, 10, 64, 512, 777])
            }
        };
        match g.n(11) {
            0 | 1 => e.rchunk = chunk(g),
            2 => e.eintr = *g.pick(&[2, 2, 3, 5]),
            3 => {
                e.rchunk = chunk(g);
                e.eintr = *g.pick(&[2, 3]);
                e.stat = g.i(1, 3) as u8;
            }
            4 => e.stat = g.i(1, 3) as u8,
            5 | 6 => {
                e.rchunk = chunk(g);
                let calls = (len / e.rchunk as u64 + 1) as u32;
                let k = nth(g, calls);
                let er = *g.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::EAGAIN, libc::EISDIR]);
                e.faults.push(f("read", k, ActS::Errno(er)));
            }
            7 => {
                let k = nth(g, c("read").max(1));
                let er = *g.pick(&[libc::EIO, libc::ESTALE, libc::EBADF]);
                let act = if g.p(0.5) { ActS::Errno(er) } else { ActS::Dead(er) };
                e.faults.push(f("read", k, act));
            }
            8 => {
                let er = *g.pick(&OPEN_ERR);
                e.faults.push(f("open", 0, ActS::Errno(er)));
            }
            9 => {
                let k = nth(g, c("stat").max(1));
                e.faults.push(f("stat", k, ActS::Errno(libc::EIO)));
                e.rchunk = chunk(g);
            }
            _ => {
                for _ in 0..g.i(1, 4) {
                    let k = g.n(6) as u32;
                    let n = g.i(1, 50) as u32;
                    e.faults.push(f("read", k, ActS::Short(n)));
                }
            }
        }
    }
}

/// The k-th variant of a base case (k >= 1), given the profile of its clean run.
pub fn variant(base: &Scenario, prof: &Report, k: u64) -> Scenario {
    let mut s = base.clone();
    let mut g = G::new(splitmix(base.seed ^ (k << 48)) ^ k);
    let g = &mut g;
    let sum = |t: usize, i: usize| prof.ops.iter().find(|o| o.tid == t && o.ix == i);
    let zero = vec![0u32; simos::world::KINDS];
    match s.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C06" => {
            for (i, item) in s.threads[0].iter_mut().enumerate() {
                let (c, l) = sum(0, i).map(|o| (o.counts.clone(), o.len)).unwrap_or((zero.clone(), 0));
                inject(g, &mut item.env, &item.op, &c, l);
            }
        }
        "C07" => {
            for (i, item) in s.threads[0].iter_mut().enumerate() {
                let (c, l) = sum(0, i).map(|o| (o.counts.clone(), o.len)).unwrap_or((zero.clone(), 0));
                if let Op::ReadStep { model, .. } = &mut item.op {
                    if g.p(0.45) {
                        // the file was cut short
                        model.cut = match g.n(6) {
                            0 => 1,
                            1 => 1_000_000 - g.n(30_000) as u32,
                            _ => g.i(1, 999_999) as u32,
                        };
                        if g.p(0.3) {
                            inject(g, &mut item.env, &item.op, &c, l);
                        }
                    } else {
                        inject(g, &mut item.env, &item.op, &c, l);
                    }
                }
            }
        }
        "C05" => {
            let n = s.threads[0].len();
            let mut ins: Vec<(usize, Item)> = Vec::new();
            for i in 0..n {
                let item = &mut s.threads[0][i];
                if matches!(item.op, Op::Restart | Op::Remove { .. } | Op::Put { .. }) || !g.p(0.35) {
                    continue;
                }
                let (c, l) = sum(0, i).map(|o| (o.counts.clone(), o.len)).unwrap_or((zero.clone(), 0));
                if item.op.writes() && g.p(0.3) {
                    let k = nth(g, c[0]);
                    let act = if g.p(0.5) { ActS::Crash } else { ActS::CrashAfter(*g.pick(&[0, 1, 5, 40, 300])) };
                    let kind = if g.p(0.5) { "any" } else { "write" };
                    item.env.faults.push(FaultS { kind: kind.into(), nth: k, act });
                    ins.push((i + 1, it(Op::Restart)));
                } else {
                    inject(g, &mut item.env, &item.op, &c, l);
                }
                // the fault is gone: try again
                if g.p(0.6) {
                    let mut again = s.threads[0][i].clone();
                    again.env = again.env.clean();
                    ins.push((i + 1, again));
                    if let Op::SavePts { path, .. } = &s.threads[0][i].op {
                        ins.push((i + 1, it(Op::LoadPts { path: path.clone() })));
                    }
                }
            }
            for (at, x) in ins.into_iter().rev() {
                // keep the order of insertions at one place
                s.threads[0].insert(at, x);
            }
            reorder_inserted(&mut s.threads[0]);
        }
        "C08" => {
            for item in s.threads[0].iter_mut() {
                let e = &mut item.env;
                let errs = [libc::EPIPE, libc::EBADF, libc::ENOSPC, libc::EIO, libc::EAGAIN];
                let n = g.i(1, 3);
                for _ in 0..n {
                    match g.n(8) {
                        0 | 1 => e.cwd = g.i(1, 3) as u8,
                        2 => e.out = *g.pick(&errs),
                        3 | 4 => e.err = *g.pick(&errs),
                        5 => e.jump = *g.pick(&[-86400 * 365, 1, 3600, 86400 * 4000, -1_700_000_000]),
                        6 => match g.n(3) {
                            0 => e.vars = g.i(1, 4) as u8,
                            1 => e.vtext = g.pick(&["0", "true", "off", "0.001", "1000", "uniform", "debug", "C"]).to_string(),
                            _ => {
                                let d = words();
                                e.vtext = if d.is_empty() { "on".into() } else { d[g.n(d.len() as u64) as usize].clone() }
                            }
                        },
                        _ => {
                            if !item.op.writes() {
                                e.cap = 0
                            }
                        }
                    }
                }
                if item.op.path().map(|p| simos::world::norm(p).starts_with("/cwd")).unwrap_or(false) {
                    e.cwd = 0;
                }
            }
        }
        "C09" => {
            for (i, item) in s.threads[0].iter_mut().enumerate() {
                let (c, l) = sum(0, i).map(|o| (o.counts.clone(), o.len)).unwrap_or((zero.clone(), 0));
                let e = &mut item.env;
                if g.p(0.25) {
                    e.wchunk = *g.pick(&[1, 7, 50, 84, 100, 1000]);
                }
                let w = c[simos::world::Kind::Write as usize];
                let w = if e.wchunk > 0 { w + (l / e.wchunk as u64) as u32 } else { w };
                let (kind, k) = match g.n(6) {
                    0 | 1 => ("any", nth(g, c[0].max(w) + 1)),
                    2 if c[simos::world::Kind::Seek as usize] > 0 => ("seek", 0),
                    _ => ("write", nth(g, w)),
                };
                let act = match g.n(3) {
                    0 => ActS::Crash,
                    _ => {
                        let n = match g.n(4) {
                            0 => g.n(5) as u32,
                            1 => *g.pick(&[79, 80, 81, 82, 83, 84, 85, 133, 134, 135]),
                            _ => g.n(l.min(8192) + 1) as u32,
                        };
                        ActS::CrashAfter(n)
                    }
                };
                e.faults.push(FaultS { kind: kind.into(), nth: k, act });
            }
        }
        "C16" => {
            // earlier operations fail half-way; what follows must not notice
            let n = s.threads[0].len();
            let mut hit = false;
            for i in 0..n {
                let (c, l) = sum(0, i).map(|o| (o.counts.clone(), o.len)).unwrap_or((zero.clone(), 0));
                let item = &mut s.threads[0][i];
                if g.p(0.4) || (i + 2 == n && !hit) {
                    hit = true;
                    inject(g, &mut item.env, &item.op, &c, l);
                }
                if g.p(0.1) {
                    item.env.err = *g.pick(&[libc::EPIPE, libc::EIO]);
                    item.env.out = *g.pick(&[libc::EPIPE, libc::ENOSPC]);
                }
                if g.p(0.1) {
                    item.env.jump = *g.pick(&[-86400, 1, 86400 * 4000]);
                }
            }
        }
        "C10" => {
            // preemptions: near system calls and draws of the sequential run, or anywhere
            let n = if k % 4 == 0 { g.i(10, 40) } else { g.i(1, 6) };
            let total = prof.yields.max(1);
            let mut p: Vec<(u64, u8)> = (0..n)
                .map(|_| {
                    let at =
                        if !prof.marks.is_empty() && g.p(0.6) { (*g.pick(&prof.marks) + g.n(3)).saturating_sub(1) } else { g.n(total) };
                    (at.max(1), g.n(4) as u8)
                })
                .collect();
            p.sort();
            p.dedup_by_key(|x| x.0);
            s.preempt = p;
            // disk trouble of one thread must not reach the others
            if g.p(0.25) {
                let t = g.n(s.threads.len() as u64) as usize;
                for (i, item) in s.threads[t].iter_mut().enumerate() {
                    let (c, l) = sum(t, i).map(|o| (o.counts.clone(), o.len)).unwrap_or((zero.clone(), 0));
                    inject(g, &mut item.env, &item.op, &c, l);
                }
            }
        }
        _ => {
            for item in s.threads[0].iter_mut() {
                item.env.draws = draws(g);
            }
        }
    }
    s
}

/// After a crash fault the restart must come before the retries.
fn reorder_inserted(items: &mut Vec<Item>) {
    let mut i = 0;
    while i < items.len() {
        let crash = items[i].env.faults.iter().any(|f| matches!(f.act, ActS::Crash | ActS::CrashAfter(_)));
        if crash && !matches!(items.get(i + 1).map(|x| &x.op), Some(Op::Restart)) {
            if let Some(j) = (i + 1..(i + 4).min(items.len())).find(|&j| matches!(items[j].op, Op::Restart)) {
                let r = items.remove(j);
                items.insert(i + 1, r);
            } else {
                items.insert(i + 1, it(Op::Restart));
            }
        }
        i += 1;
    }
}
