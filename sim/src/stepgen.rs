//! Seeded STEP models.
use crate::gen::*;
use crate::geo::*;
use crate::scn::*;
use crate::topo;
use geom3d::Vec3;
use std::f64::consts::TAU;

fn mults(k: &[f64]) -> (Vec<f64>, Vec<usize>) {
    let (mut v, mut m): (Vec<f64>, Vec<usize>) = (vec![], vec![]);
    for x in k {
        if v.last() == Some(x) {
            *m.last_mut().unwrap() += 1;
        } else {
            v.push(*x);
            m.push(1);
        }
    }
    (v, m)
}

/// B-spline curve that does not come near itself
fn spline(g: &mut G, a: Vec3, b: Vec3) -> StepCurve {
    let deg = g.degree(2, 3);
    let bent = g.p(0.5);
    let n = deg + 1 + g.i(0, if bent { 8 } else { 3 });
    let amp = if bent { g.f(0.15, if deg > 3 { 0.5 } else { 0.8 }) } else { 0.15 };
    let d = b - a;
    let side = if d.cross(Vec3::Z).length() > 0.1 * d.length() { d.cross(Vec3::Z) } else { d.cross(Vec3::X) };
    let p = (0..n)
        .map(|i| {
            let t = i as f64 / (n - 1) as f64;
            let w = if i == 0 || i == n - 1 { 0.0 } else { g.f(-amp, amp) };
            a3(a + d * t + side * w)
        })
        .collect();
    let k = g.clamped(n, deg);
    // distinct knots stay distinct
    let (k, m) = mults(&k);
    let c = StepCurve::BSp { p, k, m, deg: deg as u8 };
    if g.p(0.5) {
        piece(g, &c, a, b).unwrap_or(c)
    } else {
        c
    }
}

/// A similar curve that passes a and b on its way.
fn piece(g: &mut G, c: &StepCurve, a: Vec3, b: Vec3) -> Option<StepCurve> {
    let StepCurve::BSp { p, k, m, deg } = c else { return None };
    if crate::step::corners(c) {
        return None;
    }
    let (first, last) = (k[0], k[k.len() - 1]);
    let (x, y) = (g.f(0.0, 0.35), g.f(0.65, 1.0));
    let s = SegS { c: crate::step::curve_spec(c), r: (first + (last - first) * x, first + (last - first) * y), tol: 0.01 };
    let (q, r) = (seg_at(&s, 0.0), seg_at(&s, 1.0));
    let scale = (b - a).length() / (r - q).length();
    let turn = geom3d::Quat::from_rotation_arc((r - q).normalize(), (b - a).normalize());
    let p = p.iter().map(|p| a3(a + turn * ((v3(*p) - q) * scale))).collect();
    Some(StepCurve::BSp { p, k: k.clone(), m: m.clone(), deg: *deg })
}

/// An edge from a to b that is not a circle.
fn edge(g: &mut G, a: Vec3, b: Vec3) -> StepEdge {
    let rev = g.p(0.35);
    let (s, e) = if rev { (b, a) } else { (a, b) };
    let c = match g.n(5) {
        0 | 1 => {
            let d = (e - s).normalize();
            StepCurve::Line { o: a3(s - d * g.f(-3.0, 3.0)), d: a3(d) }
        }
        2 => StepCurve::Poly { v: vec![a3(s), a3(e)] },
        3 => {
            let n = g.i(1, 3);
            let mut v = vec![a3(s)];
            for i in 1..=n {
                v.push(a3(s + (e - s) * (i as f64 / (n + 1) as f64) + g.unit() * (e - s).length() * 0.1));
            }
            v.push(a3(e));
            StepCurve::Poly { v }
        }
        _ => spline(g, s, e),
    };
    StepEdge { c, a: a3(a), b: a3(b), same: !rev }
}

/// A closed chain of circular edges.
fn ring(g: &mut G) -> Vec<StepEdge> {
    let (n, u) = g.frame();
    let c = v3(g.pos(20.0));
    let r = g.f(0.3, 15.0);
    let k = g.i(1, 4);
    // often from the reference direction
    let off = if g.p(0.3) { 0.0 } else { g.f(0.0, TAU / k as f64) };
    let ccw = g.p(0.5);
    let w = n.cross(u);
    let at = |i: usize| {
        let a = off + TAU * (i % k) as f64 / k as f64;
        a3(c + u * (r * a.cos()) + w * (r * a.sin()))
    };
    let scale = *g.pick(&[1.0, 1.0, 1.0, 2.5]);
    (0..k)
        .map(|i| {
            let (a, b) = if ccw { (at(i), at(i + 1)) } else { (at(k - i), at(k - i - 1)) };
            StepEdge { c: StepCurve::Circle { c: a3(c), axis: a3(n), refd: a3(u * scale), r }, a, b, same: ccw }
        })
        .collect()
}

/// A closed curve, whole or cut in two.
fn round(g: &mut G) -> Vec<StepEdge> {
    let (nn, u) = g.frame();
    let w = nn.cross(u);
    let c = v3(g.pos(20.0));
    let r = g.f(0.5, 15.0);
    let n = g.i(4, 9);
    let mut v: Vec<P3> = (0..n)
        .map(|i| {
            let (s, co) = (TAU * i as f64 / n as f64).sin_cos();
            let q = r * g.f(0.8, 1.0);
            a3(c + u * (q * co) + w * (q * s))
        })
        .collect();
    v.push(v[0]);
    let c = if g.p(0.4) {
        StepCurve::Poly { v }
    } else {
        let deg = g.degree(2, 3);
        let deg = deg.min(v.len() - 1);
        let (k, m) = mults(&g.clamped(v.len(), deg));
        StepCurve::BSp { p: v, k, m, deg: deg as u8 }
    };
    let spec = crate::step::curve_spec(&c);
    let (seam, first, last) = crate::step::seam(&spec).unwrap();
    let same = g.p(0.5);
    if crate::step::corners(&c) || g.p(0.5) {
        return vec![StepEdge { c, a: seam, b: seam, same }];
    }
    let t = first + (last - first) * g.f(0.3, 0.7);
    let m = a3(seg_at(&SegS { c: spec, r: (t, last), tol: 0.01 }, 0.0));
    let mut es = vec![StepEdge { c: c.clone(), a: seam, b: m, same }, StepEdge { c, a: m, b: seam, same }];
    if g.p(0.5) {
        es.reverse();
    }
    es
}

fn poly_loop(g: &mut G) -> Vec<StepEdge> {
    let n = g.i(3, 7);
    let (nn, u) = g.frame();
    let w = nn.cross(u);
    let c = v3(g.pos(20.0));
    let r = g.f(1.0, 20.0);
    let v: Vec<Vec3> = (0..n)
        .map(|i| {
            let a = TAU * i as f64 / n as f64;
            let q = r * g.f(0.6, 1.0);
            c + u * (q * a.cos()) + w * (q * a.sin())
        })
        .collect();
    (0..n).map(|i| edge(g, v[i], v[(i + 1) % n])).collect()
}

/// The loops of a real planar face, as edges.
fn from_segs(l: &[SegS]) -> Option<Vec<StepEdge>> {
    l.iter()
        .map(|s| {
            let (a, mut b) = (a3(seg_at(s, 0.0)), a3(seg_at(s, 1.0)));
            let fwd = s.r.1 > s.r.0;
            let c = match &s.c {
                CurveS::Line { o, d } => StepCurve::Line { o: *o, d: *d },
                CurveS::Poly { v } => StepCurve::Poly { v: v.clone() },
                CurveS::BSp { p, k, deg } if *deg >= 2 => {
                    let (k, m) = mults(k);
                    StepCurve::BSp { p: p.clone(), k, m, deg: *deg }
                }
                CurveS::Bez { p } if p.len() == 3 || p.len() == 4 => {
                    let d = p.len() - 1;
                    StepCurve::BSp { p: p.clone(), k: vec![0.0, 1.0], m: vec![d + 1, d + 1], deg: d as u8 }
                }
                CurveS::Circle { c, r, axis, refd } => {
                    let ang = |x: f64| x.rem_euclid(TAU);
                    let (u, w) = (ang(s.r.0), ang(s.r.1));
                    let span = (s.r.1 - s.r.0).abs();
                    let whole = (span - TAU).abs() < 1e-9;
                    if !whole && ((u - w).abs() < 0.1 || span > TAU - 0.1) {
                        return None;
                    }
                    if whole {
                        b = a;
                    }
                    StepCurve::Circle { c: *c, axis: *axis, refd: *refd, r: *r }
                }
                _ => return None,
            };
            Some(StepEdge { c, a, b, same: fwd })
        })
        .collect()
}

fn net(g: &mut G, n: usize, m: usize) -> Vec<Vec<P3>> {
    (0..n).map(|i| (0..m).map(|j| [i as f64 * 3.0 + g.f(-1.0, 1.0), j as f64 * 3.0 + g.f(-1.0, 1.0), g.f(-2.0, 2.0)]).collect()).collect()
}
fn wnet(g: &mut G, n: usize, m: usize) -> Vec<Vec<f64>> {
    (0..n).map(|_| (0..m).map(|_| g.f(0.4, 2.5)).collect()).collect()
}

/// A frame, often one with default directions.
fn axes(g: &mut G) -> (Vec3, Vec3) {
    let (n, u) = g.frame();
    match g.n(8) {
        0 => (Vec3::Z, Vec3::X),
        1 => (n, (Vec3::X - n * n.x).try_normalize().filter(|_| n.x.abs() < 0.99).unwrap_or(u)),
        2 => (Vec3::X, Vec3::Y),
        _ => (n, u),
    }
}
fn surf(g: &mut G) -> StepSurf {
    let (n, u) = axes(g);
    let o = g.pos(30.0);
    match g.n(12) {
        0..=2 => StepSurf::Plane { o, z: a3(n), x: a3(u) },
        3 | 4 => {
            let scale = *g.pick(&[1.0, 1.0, 0.5]);
            StepSurf::Cyl { o, z: a3(n), x: a3(u * scale), r: g.f(0.2, 20.0) }
        }
        5 => {
            let deg = (g.degree(1, 3), g.degree(1, 3));
            let (a, b) = (deg.0 + 1 + g.i(0, 3), deg.1 + 1 + g.i(0, 3));
            let ((ku, mu), (kv, mv)) = (mults(&g.clamped(a, deg.0)), mults(&g.clamped(b, deg.1)));
            StepSurf::BSp { p: net(g, a, b), ku, mu, kv, mv, deg: (deg.0 as u8, deg.1 as u8) }
        }
        6 => {
            let (a, b) = (g.i(2, 4), g.i(2, 4));
            StepSurf::Bez { p: net(g, a, b) }
        }
        7 => {
            let deg = (g.degree(1, 3), g.degree(1, 3));
            let (a, b) = (deg.0 + 1 + g.i(0, 3), deg.1 + 1 + g.i(0, 3));
            StepSurf::Uni { p: net(g, a, b), deg: (deg.0 as u8, deg.1 as u8) }
        }
        8 => {
            let deg = (g.degree(1, 3), g.degree(1, 3));
            let (a, b) = (deg.0 + 1 + g.i(0, 3), deg.1 + 1 + g.i(0, 3));
            StepSurf::RUni { p: net(g, a, b), w: wnet(g, a, b), deg: (deg.0 as u8, deg.1 as u8) }
        }
        9 => {
            let deg = (g.degree(1, 3), g.degree(1, 3));
            let (a, b) = (deg.0 + 1 + g.i(0, 3), deg.1 + 1 + g.i(0, 3));
            let ((ku, mu), (kv, mv)) = (mults(&g.clamped(a, deg.0)), mults(&g.clamped(b, deg.1)));
            StepSurf::RBSp { p: net(g, a, b), w: wnet(g, a, b), ku, mu, kv, mv, deg: (deg.0 as u8, deg.1 as u8) }
        }
        10 => {
            let (a, b) = (v3(g.pos(8.0)), v3(g.pos(8.0)));
            let b = if (a - b).length() < 0.5 { a + Vec3::X } else { b };
            let c = match g.n(3) {
                0 => StepCurve::Line { o: a3(a), d: a3((b - a).normalize()) },
                1 => StepCurve::Circle { c: a3(a), axis: a3(n), refd: a3(u), r: g.f(0.3, 4.0) },
                _ => {
                    // parameters 0..1
                    let p = vec![a3(a), a3(a + (b - a) * 0.4 + Vec3::Z), a3(b)];
                    StepCurve::BSp { p, k: vec![0.0, 1.0], m: vec![3, 3], deg: 2 }
                }
            };
            StepSurf::Rev { o, z: a3(g.unit()), c }
        }
        _ => StepSurf::Unknown { o, z: a3(n), x: a3(u), r: g.f(0.2, 20.0) },
    }
}

fn face(g: &mut G) -> StepFace {
    if g.p(0.35) {
        let h = g.p(0.4);
        let (s, b) = g.planar(0, h);
        if let Some(l) = b.iter().map(|l| from_segs(l)).collect::<Option<Vec<_>>>() {
            if let SurfS::Plane { o, n, u } = &s {
                let _ = topo::plane_frame(&s);
                return StepFace { s: StepSurf::Plane { o: *o, z: *n, x: *u }, same: g.p(0.6), b: l };
            }
        }
    }
    let s = surf(g);
    let nb = match g.n(6) {
        0 => 0,
        1..=4 => 1,
        _ => g.i(2, 3),
    };
    let b = (0..nb)
        .map(|_| match g.n(10) {
            0..=2 => ring(g),
            3 => round(g),
            _ => poly_loop(g),
        })
        .collect();
    StepFace { s, same: g.p(0.6), b }
}

fn curve(g: &mut G) -> Vec<StepSeg> {
    let n = g.i(1, 4);
    (0..n)
        .map(|_| match g.n(5) {
            0 => {
                let (a, b) = (g.f(-5.0, 0.0), g.f(0.5, 9.0));
                let (a, b) = if g.p(0.3) { (b, a) } else { (a, b) };
                StepSeg { c: StepCurve::Line { o: g.pos(20.0), d: a3(g.unit()) }, r: (a, b), sense: a < b }
            }
            1 | 2 => {
                let (nn, u) = axes(g);
                let (a, b) = (g.f(0.1, 6.1), g.f(0.1, 6.1));
                let b = if (a - b).abs() < 0.1 {
                    if a > 3.0 {
                        a - 1.0
                    } else {
                        a + 1.0
                    }
                } else {
                    b
                };
                let c = StepCurve::Circle { c: g.pos(20.0), axis: a3(nn), refd: a3(u), r: g.f(0.2, 9.0) };
                StepSeg { c, r: (a, b), sense: g.p(0.5) }
            }
            3 => {
                let k = g.i(2, 8);
                let rev = g.p(0.3);
                let r = if rev { (1.0, 0.0) } else { (0.0, 1.0) };
                StepSeg { c: StepCurve::Poly { v: g.walk(k, 2.0, false) }, r, sense: !rev }
            }
            _ => {
                let (a, b) = (v3(g.pos(9.0)), v3(g.pos(9.0)));
                let b = if (a - b).length() < 0.5 { a + Vec3::X } else { b };
                let c = spline(g, a, b);
                let StepCurve::BSp { k, .. } = &c else { unreachable!() };
                let (lo, hi) = (k[0], k[k.len() - 1]);
                let r = if g.p(0.5) { (lo, hi) } else { (lo + (hi - lo) * g.f(0.0, 0.4), lo + (hi - lo) * g.f(0.6, 1.0)) };
                let rev = g.p(0.3);
                StepSeg { c, r: if rev { (r.1, r.0) } else { r }, sense: !rev }
            }
        })
        .collect()
}

fn forms(g: &mut G) -> u32 {
    if g.p(0.4) {
        return 0;
    }
    (0..11).filter(|_| g.p(0.2)).map(|b| 1 << b).sum()
}
/// Not every curve can be trimmed by points.
fn finish(mut m: StepS) -> StepS {
    if !crate::step::valid(&m) {
        m.forms &= !crate::step::TRIM_POINT;
    }
    m
}
pub fn model(g: &mut G) -> StepS {
    let nf = match g.n(8) {
        0 => 0,
        1..=3 => 1,
        4..=6 => g.i(2, 4),
        _ => g.i(4, 9),
    };
    let nc = match g.n(5) {
        0..=2 => g.n(2) as usize,
        _ => g.i(1, 4),
    };
    finish(StepS {
        faces: (0..nf).map(|_| face(g)).collect(),
        curves: (0..nc).map(|_| curve(g)).collect(),
        layout: g.n(1 << 20),
        cut: 0,
        forms: forms(g),
    })
}

pub fn small(g: &mut G) -> StepS {
    let f = if g.p(0.8) { vec![face(g)] } else { vec![] };
    let c = if g.p(0.6) { vec![curve(g)] } else { vec![] };
    finish(StepS { faces: f, curves: c, layout: g.n(1 << 20), cut: 0, forms: forms(g) })
}
