//! Geometry: building library objects from specs, and independent evaluation of the same specs.
use crate::scn::*;
use geom3d::curve::{self, Curve, CurveSegment};
use geom3d::surface::{self, EdgeLoop, Surface};
use geom3d::{Grid, KnotVector, Point2, Point3, Point4, Vec3};

pub fn v3(p: P3) -> Vec3 {
    Vec3::new(p[0], p[1], p[2])
}
pub fn a3(p: Vec3) -> P3 {
    [p.x, p.y, p.z]
}

// ---------------------------------------------------------------- independent evaluation

fn span(k: &[f64], deg: usize, n: usize, u: f64) -> usize {
    // last span with k[i] <= u < k[i+1]; the end belongs to the last non-empty one
    let mut s = deg;
    for i in deg..n {
        if k[i] <= u && k[i] < k[i + 1] {
            s = i;
        }
    }
    s
}

/// de Boor on 4-vectors
fn de_boor(p: &dyn Fn(usize) -> P4, n: usize, k: &[f64], deg: usize, u: f64) -> P4 {
    let s = span(k, deg, n, u);
    let mut d: Vec<P4> = (0..=deg).map(|j| p(s - deg + j)).collect();
    for r in 1..=deg {
        for j in (r..=deg).rev() {
            let i = s - deg + j;
            let den = k[i + deg + 1 - r] - k[i];
            let a = if den == 0.0 { 0.0 } else { (u - k[i]) / den };
            for c in 0..4 {
                d[j][c] = (1.0 - a) * d[j - 1][c] + a * d[j][c];
            }
        }
    }
    d[deg]
}

/// Sum of the basis functions times the points, by the Cox-de Boor recursion: also where they do not add up to one.
fn blend(p: &[P3], k: &[f64], deg: usize, u: f64) -> Vec3 {
    let n = k.len() - 1;
    let last = (0..n).rev().find(|&i| k[i] < k[i + 1]).unwrap_or(0);
    let mut b: Vec<f64> = (0..n)
        .map(|i| if k[i] < k[i + 1] && k[i] <= u && (u < k[i + 1] || i == last) { 1.0 } else { 0.0 })
        .collect();
    for d in 1..=deg {
        for i in 0..n - d {
            let l = if k[i + d] > k[i] { (u - k[i]) / (k[i + d] - k[i]) * b[i] } else { 0.0 };
            let r = if k[i + d + 1] > k[i + 1] { (k[i + d + 1] - u) / (k[i + d + 1] - k[i + 1]) * b[i + 1] } else { 0.0 };
            b[i] = l + r;
        }
    }
    p.iter().zip(&b).fold(Vec3::ZERO, |s, (p, b)| s + v3(*p) * *b)
}

fn casteljau(mut d: Vec<P4>, u: f64) -> P4 {
    while d.len() > 1 {
        for i in 0..d.len() - 1 {
            for c in 0..4 {
                d[i][c] = (1.0 - u) * d[i][c] + u * d[i + 1][c];
            }
        }
        d.pop();
    }
    d[0]
}

fn h(p: &P3) -> P4 {
    [p[0], p[1], p[2], 1.0]
}
fn dehom(p: P4) -> Vec3 {
    Vec3::new(p[0] / p[3], p[1] / p[3], p[2] / p[3])
}

fn rot(axis: Vec3, angle: f64, v: Vec3) -> Vec3 {
    // Rodrigues
    let (s, c) = angle.sin_cos();
    v * c + axis.cross(v) * s + axis * axis.dot(v) * (1.0 - c)
}

pub fn eval_curve(c: &CurveS, u: f64) -> Vec3 {
    match c {
        CurveS::Line { o, d } => v3(*o) + v3(*d) * u,
        CurveS::Circle { c, r, axis, refd } => v3(*c) + rot(v3(*axis), u, v3(*refd)) * *r,
        CurveS::Poly { v } => {
            if u <= 0.0 {
                return v3(v[0]);
            }
            if u >= 1.0 {
                return v3(v[v.len() - 1]);
            }
            let lens: Vec<f64> = v.windows(2).map(|w| (v3(w[1]) - v3(w[0])).length()).collect();
            let mut l = u * lens.iter().sum::<f64>();
            for (i, &s) in lens.iter().enumerate() {
                if l <= s || i + 1 == lens.len() {
                    return v3(v[i]) + (v3(v[i + 1]) - v3(v[i])) * if s > 0.0 { (l / s).min(1.0) } else { 0.0 };
                }
                l -= s;
            }
            unreachable!()
        }
        CurveS::Bez { p } => dehom(casteljau(p.iter().map(h).collect(), u)),
        CurveS::BSp { p, k, deg } if k[*deg as usize] != k[0] || k[p.len()] != k[k.len() - 1] => blend(p, k, *deg as usize, u),
        CurveS::BSp { p, k, deg } => dehom(de_boor(&|i| h(&p[i]), p.len(), k, *deg as usize, u)),
        CurveS::RBez { p } => dehom(casteljau(p.clone(), u)),
        CurveS::RBSp { p, k, deg } => dehom(de_boor(&|i| p[i], p.len(), k, *deg as usize, u)),
        CurveS::OnSurf { s, a, b } => eval_surf(s, a[0] + (b[0] - a[0]) * u, a[1] + (b[1] - a[1]) * u),
        CurveS::OnSurfArc { s, c, r } => eval_surf(s, c[0] + r * u.cos(), c[1] + r * u.sin()),
    }
}

pub fn eval_surf(s: &SurfS, u: f64, v: f64) -> Vec3 {
    match s {
        SurfS::Plane { o, n, u: ua } => v3(*o) + v3(*ua) * u + v3(*n).cross(v3(*ua)) * v,
        SurfS::Cyl { o, axis, refd, r } => v3(*o) + v3(*axis) * u + rot(v3(*axis), v, v3(*refd)) * *r,
        SurfS::BSp { p, ku, kv, deg } => {
            let row = |i: usize| de_boor(&|j| h(&p[i][j]), p[i].len(), kv, deg.1 as usize, v);
            dehom(de_boor(&row, p.len(), ku, deg.0 as usize, u))
        }
        SurfS::RBSp { p, ku, kv, deg } => {
            let row = |i: usize| de_boor(&|j| p[i][j], p[i].len(), kv, deg.1 as usize, v);
            dehom(de_boor(&row, p.len(), ku, deg.0 as usize, u))
        }
        SurfS::Bez { p } => {
            let rows: Vec<P4> = p.iter().map(|r| casteljau(r.iter().map(h).collect(), v)).collect();
            dehom(casteljau(rows, u))
        }
        SurfS::Spin { o, axis, c } => {
            let o = v3(*o);
            o + rot(v3(*axis), v, eval_curve(c, u) - o)
        }
        SurfS::Sweep { p, s } => eval_curve(p, u) + eval_curve(s, v),
        SurfS::Umb { r } => {
            let r = r / std::f64::consts::PI;
            Vec3::new(r * (u - u.sin()) * v.cos(), r * (u - u.sin()) * v.sin(), r * (1.0 + u.cos()))
        }
    }
}

/// Size of a curve segment: rough length by sampling
pub fn seg_len(s: &SegS) -> f64 {
    let n = 64;
    let mut l = 0.0;
    let mut q = eval_curve(&s.c, s.r.0);
    for i in 1..=n {
        let p = eval_curve(&s.c, s.r.0 + (s.r.1 - s.r.0) * i as f64 / n as f64);
        l += (p - q).length();
        q = p;
    }
    l
}

pub fn seg_at(s: &SegS, t: f64) -> Vec3 {
    if t == 0.0 {
        return eval_curve(&s.c, s.r.0);
    }
    if t == 1.0 {
        return eval_curve(&s.c, s.r.1);
    }
    eval_curve(&s.c, s.r.0 + (s.r.1 - s.r.0) * t)
}

// ---------------------------------------------------------------- locating points on segments

/// Table for finding the normalised parameter (0..1 along the segment) of points.
pub struct SegTab {
    pub seg: SegS,
    pub pts: Vec<Vec3>,
    pub len: f64,
    /// corners of a piecewise linear segment with their normalised parameters (empty: not piecewise linear)
    pub corners: Vec<(f64, Vec3)>,
}

/// Corners of a piecewise linear segment, in its own direction.
fn corners(seg: &SegS) -> Vec<(f64, Vec3)> {
    let mut c = Vec::new();
    match &seg.c {
        CurveS::Line { .. } => {}
        CurveS::Poly { v } => {
            let mut at = vec![0.0];
            for w in v.windows(2) {
                at.push(at[at.len() - 1] + (v3(w[1]) - v3(w[0])).length());
            }
            let total = at[at.len() - 1];
            if total > 0.0 {
                for (a, p) in at.iter().zip(v) {
                    let t = (a / total - seg.r.0) / (seg.r.1 - seg.r.0);
                    if t > 1e-12 && t < 1.0 - 1e-12 {
                        c.push((t, v3(*p)));
                    }
                }
                if seg.r.0 > seg.r.1 {
                    c.reverse();
                }
            }
        }
        _ => return c,
    }
    c.insert(0, (0.0, seg_at(seg, 0.0)));
    c.push((1.0, seg_at(seg, 1.0)));
    c
}

impl SegTab {
    pub fn new(seg: &SegS) -> SegTab {
        let corners = corners(seg);
        let n = match &seg.c {
            CurveS::Line { .. } => 1,
            CurveS::Poly { v } => (v.len() * 16).max(128),
            CurveS::BSp { p, .. } => (p.len() * 24).max(128),
            _ => 128,
        };
        let pts: Vec<Vec3> = (0..=n).map(|i| seg_at(seg, i as f64 / n as f64)).collect();
        let len = if corners.is_empty() {
            pts.windows(2).map(|w| (w[1] - w[0]).length()).sum()
        } else {
            corners.windows(2).map(|w| (w[1].1 - w[0].1).length()).sum()
        };
        SegTab { seg: seg.clone(), pts, len, corners }
    }
    fn refine(&self, p: Vec3, lo: f64, hi: f64) -> (f64, f64) {
        let d = |t: f64| (seg_at(&self.seg, t) - p).length_squared();
        let (mut a, mut b) = (lo.max(0.0), hi.min(1.0));
        let g = 0.618_033_988_749_894_8;
        let (mut x1, mut x2) = (b - g * (b - a), a + g * (b - a));
        let (mut f1, mut f2) = (d(x1), d(x2));
        for _ in 0..60 {
            if f1 < f2 {
                b = x2;
                x2 = x1;
                f2 = f1;
                x1 = b - g * (b - a);
                f1 = d(x1);
            } else {
                a = x1;
                x1 = x2;
                f1 = f2;
                x2 = a + g * (b - a);
                f2 = d(x2);
            }
        }
        let t = 0.5 * (a + b);
        let mut best = (t, d(t));
        for e in [lo.max(0.0), hi.min(1.0)] {
            if d(e) < best.1 {
                best = (e, d(e));
            }
        }
        (best.0, best.1.sqrt())
    }
    /// Nearest parameter in [from, 1] and distance. Candidates within `tol` are tried in order from `from` up, so the
    /// first passage of a self-touching segment wins.
    pub fn locate_from(&self, p: Vec3, from: f64, tol: f64) -> (f64, f64) {
        let n = self.pts.len() - 1;
        if !self.corners.is_empty() {
            let mut best = (1.0, f64::MAX);
            for w in self.corners.windows(2) {
                let ((t0, a), (t1, b)) = (w[0], w[1]);
                if t1 < from {
                    continue;
                }
                let d = b - a;
                let l2 = d.length_squared();
                let lo = if t1 > t0 { ((from - t0) / (t1 - t0)).clamp(0.0, 1.0) } else { 0.0 };
                let s = if l2 > 0.0 { ((p - a).dot(d) / l2).clamp(lo, 1.0) } else { lo };
                let r = (t0 + (t1 - t0) * s, (a + d * s - p).length());
                if r.1 < best.1 {
                    best = r;
                    if best.1 <= tol {
                        break;
                    }
                }
            }
            return best;
        }
        let end = (1.0, (self.pts[n] - p).length());
        let mut best = (1.0, f64::MAX);
        let first = ((from * n as f64).floor() as usize).min(n - 1);
        for i in first..n {
            let (a, b) = (self.pts[i], self.pts[i + 1]);
            let d = b - a;
            let l2 = d.length_squared();
            let t = if l2 > 0.0 { ((p - a).dot(d) / l2).clamp(0.0, 1.0) } else { 0.0 };
            let dist = (a + d * t - p).length();
            // the chord is this close to the arc at most
            let slack = d.length() * 0.5 + tol;
            if dist < slack && dist - slack < best.1 {
                let lo = (i as f64 - 0.5) / n as f64;
                let hi = (i as f64 + 1.5) / n as f64;
                let r = self.refine(p, lo.max(from), hi);
                if r.1 < best.1 {
                    best = r;
                    if best.1 <= tol {
                        return best;
                    }
                }
            }
        }
        if end.1 < best.1 {
            best = end;
        }
        best
    }
    /// Parameter a given arc length before `t` (or 0).
    pub fn back(&self, t: f64, by: f64) -> f64 {
        if !self.corners.is_empty() {
            return if self.len > 0.0 { (t - by / self.len).max(0.0) } else { 0.0 };
        }
        let n = self.pts.len() - 1;
        let mut left = by;
        let mut i = ((t * n as f64).floor() as usize).min(n);
        let mut at = t;
        loop {
            let lo = i as f64 / n as f64;
            if i < n && at > lo {
                let d = (self.pts[i + 1] - self.pts[i]).length() * (at - lo) * n as f64;
                if d >= left {
                    return at - (at - lo) * left / d;
                }
                left -= d;
                at = lo;
            }
            if i == 0 {
                return 0.0;
            }
            i -= 1;
        }
    }
    /// Does the rest of the segment, from `t` on, stay within `dev` of the chord a-b?
    pub fn follows(&self, t: f64, a: Vec3, b: Vec3, dev: f64) -> bool {
        let d = b - a;
        let l2 = d.length_squared();
        let n = 64;
        (0..=n).all(|i| {
            let q = seg_at(&self.seg, (t + (1.0 - t) * i as f64 / n as f64).min(1.0));
            let s = if l2 > 0.0 { ((q - a).dot(d) / l2).clamp(0.0, 1.0) } else { 0.0 };
            (a + d * s - q).length() <= dev + 1e-9
        })
    }
    pub fn locate(&self, p: Vec3, tol: f64) -> (f64, f64) {
        self.locate_from(p, 0.0, tol)
    }
}

// ---------------------------------------------------------------- library objects

/// A caller-defined curve: a path in the parameter plane of a surface.
#[derive(Debug)]
pub struct OnSurf {
    pub spec: CurveS,
}
impl Curve for OnSurf {
    fn get_point(&self, u: f64) -> Point3 {
        simos::outside(|| eval_curve(&self.spec, u))
    }
    fn project(&self, _p: Point3) -> f64 {
        0.0
    }
}

fn grid<T: Clone>(p: &[Vec<T>]) -> Grid<T> {
    let cols = p[0].len();
    Grid::from_vec(p.iter().flatten().cloned().collect(), cols)
}
fn p4(p: &P4) -> Point4 {
    Point4::new(p[0], p[1], p[2], p[3])
}
pub fn knots(k: &[f64]) -> KnotVector {
    KnotVector::new(k.to_vec())
}

pub fn mk_curve(c: &CurveS) -> Box<dyn Curve> {
    match c {
        CurveS::Line { o, d } => Box::new(curve::Line { origin: v3(*o), direction: v3(*d) }),
        CurveS::Circle { c, r, axis, refd } => {
            Box::new(curve::Circle { center: v3(*c), radius: *r, axis: v3(*axis), ref_dir: v3(*refd) })
        }
        CurveS::Poly { v } => Box::new(curve::Polyline::new(v.iter().map(|p| v3(*p)).collect())),
        CurveS::Bez { p } => Box::new(curve::BezierCurve { control_points: p.iter().map(|p| v3(*p)).collect::<Vec<Point3>>() }),
        CurveS::BSp { p, k, deg } => Box::new(curve::BSplineCurve {
            control_points: p.iter().map(|p| v3(*p)).collect::<Vec<Point3>>(),
            knots: knots(k),
            degree: *deg,
        }),
        CurveS::RBez { p } => Box::new(curve::BezierCurve { control_points: p.iter().map(p4).collect::<Vec<Point4>>() }),
        CurveS::RBSp { p, k, deg } => Box::new(curve::BSplineCurve {
            control_points: p.iter().map(p4).collect::<Vec<Point4>>(),
            knots: knots(k),
            degree: *deg,
        }),
        CurveS::OnSurf { .. } | CurveS::OnSurfArc { .. } => Box::new(OnSurf { spec: c.clone() }),
    }
}

pub fn mk_plane(o: P3, n: P3, u: P3) -> surface::Plane {
    surface::Plane { origin: v3(o), normal: v3(n), u_axis: v3(u), v_axis: v3(n).cross(v3(u)) }
}
pub fn mk_cyl(o: P3, axis: P3, refd: P3, r: f64) -> surface::Cylinder {
    surface::Cylinder { origin: v3(o), axis: v3(axis), ref_dir: v3(refd), radius: r }
}
pub fn mk_bsp(p: &[Vec<P3>], ku: &[f64], kv: &[f64], deg: (u8, u8)) -> surface::BSplineSurface<Point3> {
    let g: Vec<Vec<Point3>> = p.iter().map(|r| r.iter().map(|p| v3(*p)).collect()).collect();
    surface::BSplineSurface::new(grid(&g), (knots(ku), knots(kv)), (deg.0 as usize, deg.1 as usize))
}

pub fn mk_surf(s: &SurfS) -> Box<dyn Surface> {
    match s {
        SurfS::Plane { o, n, u } => Box::new(mk_plane(*o, *n, *u)),
        SurfS::Cyl { o, axis, refd, r } => Box::new(mk_cyl(*o, *axis, *refd, *r)),
        SurfS::BSp { p, ku, kv, deg } => Box::new(mk_bsp(p, ku, kv, *deg)),
        SurfS::RBSp { p, ku, kv, deg } => {
            let g: Vec<Vec<Point4>> = p.iter().map(|r| r.iter().map(p4).collect()).collect();
            Box::new(surface::BSplineSurface::new(grid(&g), (knots(ku), knots(kv)), (deg.0 as usize, deg.1 as usize)))
        }
        SurfS::Bez { p } => {
            let g: Vec<Vec<Point3>> = p.iter().map(|r| r.iter().map(|p| v3(*p)).collect()).collect();
            Box::new(surface::BezierSurface::new(grid(&g)))
        }
        SurfS::Spin { o, axis, c } => Box::new(surface::SpinSurface { origin: v3(*o), axis: v3(*axis), section: mk_curve(c) }),
        SurfS::Sweep { p, s } => Box::new(surface::SweepSurface { path: mk_curve(p), section: mk_curve(s) }),
        SurfS::Umb { r } => Box::new(surface::Umbrella { radius: *r }),
    }
}

pub fn mk_seg(s: &SegS) -> CurveSegment<Box<dyn Curve>> {
    CurveSegment { curve: mk_curve(&s.c), parameter_range: s.r, tolerance: s.tol, parameter_division: 16 }
}
pub fn mk_loop(l: &[SegS]) -> EdgeLoop {
    EdgeLoop { edges: l.iter().map(mk_seg).collect() }
}
pub fn mk_bounds(b: &[Vec<SegS>]) -> Vec<EdgeLoop> {
    b.iter().map(|l| mk_loop(l)).collect()
}

/// Parameters of a point of a surface, from a starting grid: our own inversion.
pub struct Inverter {
    pub s: SurfS,
    pub ur: (f64, f64),
    pub vr: (f64, f64),
    grid: Vec<(f64, f64, Vec3)>,
}

impl Inverter {
    pub fn new(s: &SurfS, ur: (f64, f64), vr: (f64, f64)) -> Inverter {
        let n = 24;
        let mut grid = Vec::new();
        for i in 0..=n {
            for j in 0..=n {
                let u = ur.0 + (ur.1 - ur.0) * i as f64 / n as f64;
                let v = vr.0 + (vr.1 - vr.0) * j as f64 / n as f64;
                grid.push((u, v, eval_surf(s, u, v)));
            }
        }
        Inverter { s: s.clone(), ur, vr, grid }
    }
    /// ((u, v), distance)
    pub fn find(&self, p: Vec3) -> (Point2, f64) {
        let mut near: Vec<(f64, usize)> = self.grid.iter().enumerate().map(|(i, g)| ((g.2 - p).length_squared(), i)).collect();
        let k = near.len().min(12);
        near.select_nth_unstable_by(k - 1, |a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
        near.truncate(k);
        near.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        let good = 1e-9 * (1.0 + p.length());
        let mut best = (Point2::new(self.ur.0, self.vr.0), f64::MAX);
        for (_, i) in near {
            let r = self.from((self.grid[i].0, self.grid[i].1), p);
            if r.1 < best.1 {
                best = r;
            }
            if best.1 <= good {
                break;
            }
        }
        best
    }
    fn from(&self, b: (f64, f64), p: Vec3) -> (Point2, f64) {
        let (mut u, mut v) = b;
        let (hu, hv) = ((self.ur.1 - self.ur.0) * 1e-6, (self.vr.1 - self.vr.0) * 1e-6);
        let cl = |x: f64, r: (f64, f64)| x.max(r.0).min(r.1);
        let mut d = (eval_surf(&self.s, u, v) - p).length();
        for _ in 0..40 {
            let r = p - eval_surf(&self.s, u, v);
            let (u1, u0) = (cl(u + hu, self.ur), cl(u - hu, self.ur));
            let (v1, v0) = (cl(v + hv, self.vr), cl(v - hv, self.vr));
            let su = (eval_surf(&self.s, u1, v) - eval_surf(&self.s, u0, v)) / (u1 - u0);
            let sv = (eval_surf(&self.s, u, v1) - eval_surf(&self.s, u, v0)) / (v1 - v0);
            let (a, bb, c) = (su.dot(su), su.dot(sv), sv.dot(sv));
            let det = a * c - bb * bb;
            if det.abs() < 1e-300 {
                break;
            }
            let (ru, rv) = (su.dot(r), sv.dot(r));
            let du = (c * ru - bb * rv) / det;
            let dv = (a * rv - bb * ru) / det;
            // shorten the step until it helps
            let mut f = 1.0;
            let mut moved = false;
            while f > 1e-3 {
                let (nu, nv) = (cl(u + du * f, self.ur), cl(v + dv * f, self.vr));
                let nd = (eval_surf(&self.s, nu, nv) - p).length();
                if nd < d {
                    moved = (nu, nv) != (u, v);
                    u = nu;
                    v = nv;
                    d = nd;
                    break;
                }
                f *= 0.5;
            }
            if !moved {
                break;
            }
        }
        (Point2::new(u, v), d)
    }
}
