//! Scenarios a caller may legitimately run: what minimisation must not leave.
use crate::geo::*;
use crate::scn::*;
use crate::step;

fn fin(p: &[f64]) -> bool {
    p.iter().all(|x| x.is_finite() && x.abs() < 1e6)
}
fn unit(p: &P3) -> bool {
    (v3(*p).length() - 1.0).abs() < 1e-6
}
fn perp(a: &P3, b: &P3) -> bool {
    v3(*a).dot(v3(*b)).abs() < 1e-6
}
pub fn knots_ok(k: &[f64], n: usize, deg: u8) -> bool {
    let d = deg as usize;
    if d < 1 || n <= d || k.len() != n + d + 1 || !fin(k) || k.windows(2).any(|w| w[1] < w[0]) {
        return false;
    }
    let (a, b) = (k[0], k[k.len() - 1]);
    if b - a < 1e-3 || k[d] != a || k[n] != b || k[d + 1] == a && n > d + 1 || n > d + 1 && k[n - 1] == b {
        return false;
    }
    // inner knots: less than full multiplicity, not crowded
    let inner = &k[d + 1..n];
    let mut run = 1;
    for w in inner.windows(2) {
        run = if w[0] == w[1] { run + 1 } else { 1 };
        if run > d || (w[1] - w[0] > 0.0 && w[1] - w[0] < 1e-3 * (b - a)) {
            return false;
        }
    }
    inner.first().map(|x| x - a > 1e-3 * (b - a)).unwrap_or(true) && inner.last().map(|x| b - x > 1e-3 * (b - a)).unwrap_or(true)
}
/// any knots: ends of less than full multiplicity
fn knots_loose(k: &[f64], n: usize, deg: u8) -> bool {
    let d = deg as usize;
    if d < 1 || n <= d || k.len() != n + d + 1 || !fin(k) || k.windows(2).any(|w| w[1] < w[0]) {
        return false;
    }
    let (a, b) = (k[0], k[k.len() - 1]);
    let mut run = 1;
    b - a > 1e-3
        && k.windows(2).all(|w| {
            run = if w[0] == w[1] { run + 1 } else { 1 };
            run <= if w[1] == a || w[1] == b { d + 1 } else { d }
        })
        && k.windows(2).all(|w| w[0] == w[1] || w[1] - w[0] > 1e-3 * (b - a))
}
fn chain_ok(v: &[P3]) -> bool {
    v.len() >= 2 && v.iter().all(|p| fin(p)) && v.windows(2).all(|w| (v3(w[0]) - v3(w[1])).length() > 1e-3)
}
fn w_ok(p: &[P4]) -> bool {
    p.iter().all(|p| fin(p) && p[3] > 0.1 && p[3] < 10.0)
}
pub fn curve(c: &CurveS) -> bool {
    match c {
        CurveS::Line { o, d } => fin(o) && fin(d) && v3(*d).length() > 1e-3,
        CurveS::Circle { c, r, axis, refd } => fin(c) && *r > 1e-3 && *r < 1e6 && unit(axis) && unit(refd) && perp(axis, refd),
        CurveS::Poly { v } => chain_ok(v),
        CurveS::Bez { p } => p.len() >= 2 && p.len() <= 12 && p.iter().all(|p| fin(p)),
        CurveS::BSp { p, k, deg } => p.iter().all(|p| fin(p)) && knots_loose(k, p.len(), *deg),
        CurveS::RBez { p } => p.len() >= 2 && p.len() <= 12 && w_ok(p),
        CurveS::RBSp { p, k, deg } => w_ok(p) && knots_ok(k, p.len(), *deg),
        CurveS::OnSurf { s, a, b } => surf(s) && fin(a) && fin(b) && in_dom(s, a) && in_dom(s, b),
        CurveS::OnSurfArc { s, c, r } => {
            surf(s) && *r > 1e-3 && [[c[0] - r, c[1]], [c[0] + r, c[1]], [c[0], c[1] - r], [c[0], c[1] + r]].iter().all(|p| in_dom(s, p))
        }
    }
}
fn in_dom(s: &SurfS, p: &[f64; 2]) -> bool {
    match s {
        SurfS::BSp { ku, kv, .. } | SurfS::RBSp { ku, kv, .. } => {
            let e = 1e-9;
            p[0] >= ku[0] - e && p[0] <= ku[ku.len() - 1] + e && p[1] >= kv[0] - e && p[1] <= kv[kv.len() - 1] + e
        }
        _ => true,
    }
}
pub fn seg(s: &SegS) -> bool {
    if !curve(&s.c) || !(s.tol >= 1e-9 && s.tol <= 10.0) || !fin(&[s.r.0, s.r.1]) || (s.r.0 - s.r.1).abs() < 1e-9 {
        return false;
    }
    let (a, b) = (s.r.0.min(s.r.1), s.r.0.max(s.r.1));
    match &s.c {
        CurveS::Line { .. } => true,
        CurveS::Circle { .. } | CurveS::OnSurfArc { .. } => b - a < 20.0,
        CurveS::BSp { k, .. } | CurveS::RBSp { k, .. } => a >= k[0] && b <= k[k.len() - 1],
        _ => a >= 0.0 && b <= 1.0,
    }
}
fn net<T>(p: &[Vec<T>]) -> bool {
    p.len() >= 2 && p[0].len() >= 2 && p.iter().all(|r| r.len() == p[0].len())
}
pub fn surf(s: &SurfS) -> bool {
    match s {
        SurfS::Plane { o, n, u } => fin(o) && unit(n) && unit(u) && perp(n, u),
        SurfS::Cyl { o, axis, refd, r } => fin(o) && unit(axis) && unit(refd) && perp(axis, refd) && *r > 1e-2,
        SurfS::BSp { p, ku, kv, deg } => {
            net(p) && p.iter().flatten().all(|p| fin(p)) && knots_ok(ku, p.len(), deg.0) && knots_ok(kv, p[0].len(), deg.1)
        }
        SurfS::RBSp { p, ku, kv, deg } => {
            net(p) && p.iter().all(|p| w_ok(p)) && knots_ok(ku, p.len(), deg.0) && knots_ok(kv, p[0].len(), deg.1)
        }
        SurfS::Bez { p } => net(p) && p.len() < 9 && p[0].len() < 9 && p.iter().flatten().all(|p| fin(p)),
        SurfS::Spin { o, axis, c } => fin(o) && unit(axis) && curve(c),
        SurfS::Sweep { p, s } => curve(p) && curve(s),
        SurfS::Umb { r } => *r > 1e-2,
    }
}
fn mesh(m: &MeshS) -> bool {
    (m.n.is_empty() || m.n.len() == m.v.len()) && m.t.iter().flatten().all(|i| (*i as usize) < m.v.len())
}
fn patch(s: &SurfS, r: &((f64, f64), (f64, f64)), d: &(usize, usize)) -> bool {
    surf(s)
        && d.0 >= 1
        && d.1 >= 1
        && (d.0 * d.1 < 5000 || (d.0.min(d.1) <= 2 && d.0 * d.1 < 70_000))
        && r.0 .0 < r.0 .1
        && r.1 .0 < r.1 .1
        && in_dom(s, &[r.0 .0, r.1 .0])
        && in_dom(s, &[r.0 .1, r.1 .1])
}
fn face(f: &FaceS) -> bool {
    match f {
        FaceS::Mesh(m) => mesh(m),
        FaceS::Patch { s, r, d } => patch(s, r, d),
        FaceS::Trim { s, b } => trim(s, b),
        FaceS::Wobble { .. } | FaceS::Panicker { .. } => true,
    }
}
fn trim(s: &SurfS, b: &[Vec<SegS>]) -> bool {
    surf(s) && !b.is_empty() && b.iter().all(|l| !l.is_empty() && l.iter().all(seg))
}

pub fn op(o: &Op, sh: &[Shared]) -> bool {
    let dom = |c: &CurveS, u: &[f64]| match c {
        CurveS::BSp { k, .. } | CurveS::RBSp { k, .. } => u.iter().all(|u| *u >= k[0] && *u <= k[k.len() - 1]),
        CurveS::Line { .. } | CurveS::Circle { .. } => true,
        _ => u.iter().all(|u| *u >= 0.0 && *u <= 1.0),
    };
    let proj = |c: &CurveS| match c {
        CurveS::Line { .. } | CurveS::Circle { .. } | CurveS::Poly { .. } => true,
        CurveS::BSp { deg, .. } => *deg >= 2,
        _ => false,
    };
    let path = o.path().map(|p| p.len() < 2000).unwrap_or(true);
    path && match o {
        Op::SaveObj { faces, .. } | Op::SaveStl { faces, .. } => faces.iter().all(face),
        Op::SaveSvg { curves, size, .. } => {
            size.0 > 0.0
                && size.1 > 0.0
                && curves.iter().flatten().all(|s| {
                    let flat = |t: f64| seg_at(s, t).z.abs() < 1e-9;
                    seg(s) && flat(0.0) && flat(0.37) && flat(1.0)
                })
        }
        Op::MeshObj { mesh: m, .. } | Op::WriteObj { mesh: m, .. } => mesh(m),
        Op::ReadStep { model, .. } => step::valid(model),
        Op::EvalCurve { c, u } => curve(c) && dom(c, u),
        Op::ProjCurve { c, .. } => curve(c) && proj(c),
        Op::Algebra { c, u } => {
            curve(c)
                && !u.is_empty()
                && dom(c, u)
                && match c {
                    CurveS::BSp { k, deg, .. } => *deg >= 1 && u.iter().all(|u| *u > k[0] && *u < k[k.len() - 1]),
                    CurveS::Bez { p } => p.len() >= 2,
                    _ => false,
                }
        }
        Op::SurfAlgebra { s, uv } => surf(s) && matches!(s, SurfS::BSp { .. }) && uv.iter().all(|p| in_dom(s, p)),
        Op::EvalSurf { s, uv } => surf(s) && uv.iter().all(|p| in_dom(s, p)),
        Op::ProjSurf { s, .. } => surf(s),
        Op::Mesh { face: f } => face(f),
        Op::Sample { seg: s } | Op::Points { seg: s } => seg(s),
        Op::Polygon { l } => !l.is_empty() && l.iter().all(seg),
        Op::Trim { s, b } => trim(s, b),
        Op::ShEval { i, u } => match sh.get(*i) {
            Some(Shared::Curve(c)) => dom(c, &u.iter().map(|u| u[0]).collect::<Vec<_>>()),
            Some(Shared::Surf(s)) => u.iter().all(|p| in_dom(s, p)),
            _ => false,
        },
        Op::ShProj { i, .. } => match sh.get(*i) {
            Some(Shared::Curve(c)) => proj(c),
            Some(Shared::Surf(_)) => true,
            _ => false,
        },
        Op::ShMesh { i } => matches!(sh.get(*i), Some(Shared::Patch { .. } | Shared::Mesh(_))),
        Op::ShPoints { i, r, tol } => match sh.get(*i) {
            Some(Shared::Curve(c)) => seg(&SegS { c: c.clone(), r: *r, tol: *tol }),
            _ => false,
        },
        Op::ShTrim { i, b } => match sh.get(*i) {
            Some(Shared::Surf(s)) => trim(s, b),
            _ => false,
        },
        Op::ShSave { i, .. } => matches!(sh.get(*i), Some(Shared::Mesh(_) | Shared::Points(_))),
        _ => true,
    }
}

pub fn scenario(s: &Scenario) -> bool {
    let sh = s.shared.iter().all(|x| match x {
        Shared::Curve(c) => curve(c),
        Shared::Surf(s) => surf(s),
        Shared::Patch { s, r, d } => patch(s, r, d),
        Shared::Mesh(m) => mesh(m),
        Shared::Points(_) => true,
    });
    sh && !s.threads.is_empty()
        && s.threads.len() < 12
        && s.threads.iter().flatten().all(|i| op(&i.op, &s.shared))
        && s.preempt.windows(2).all(|w| w[0].0 < w[1].0)
        && distinct_files(s)
}

/// Threads write different files, and read none another one writes.
fn distinct_files(s: &Scenario) -> bool {
    if s.threads.len() < 2 {
        return true;
    }
    let mut own: std::collections::BTreeMap<String, usize> = Default::default();
    for (t, l) in s.threads.iter().enumerate() {
        for i in l {
            if let Some(p) = i.op.path() {
                if *own.entry(simos::world::norm(p)).or_insert(t) != t {
                    return false;
                }
            }
        }
    }
    true
}

/// A history is comparable with fresh processes: all of it draws the same number, and it reads no file it writes.
pub fn history(s: &Scenario) -> bool {
    let items = &s.threads[0];
    let path = |i: &Item| i.op.path().map(simos::world::norm);
    s.threads.len() == 1
        && items.iter().all(|i| matches!(i.env.draws, DrawS::Fixed(_)) && i.env.draws == items[0].env.draws)
        && items.iter().all(|i| i.op.writes() || path(i).is_none() || items.iter().all(|j| !j.op.writes() || path(j) != path(i)))
        && items.iter().all(|i| !matches!(i.op, Op::Restart | Op::Remove { .. }))
}
