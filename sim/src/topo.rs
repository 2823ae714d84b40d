//! Oracles over sampled curves, polygons and meshes.
use crate::content::exact_class;
use crate::geo::*;
use crate::scn::*;
use geom3d::{Point2, TriangleMesh, Vec3};
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), String>;

/// vertices closer than this are merged by the library (square root of its tolerance)
pub const MERGE: f64 = 3.3e-4;

pub fn scale_of(pts: &[Vec3]) -> f64 {
    pts.iter().map(|p| p.length()).fold(1.0, f64::max)
}

// ---------------------------------------------------------------- loops

/// A closed chain of segments, each longer than `min_len`.
pub fn loop_closed(l: &[SegS], min_len: f64) -> bool {
    if l.is_empty() {
        return false;
    }
    for i in 0..l.len() {
        let e = seg_at(&l[i], 1.0);
        let s = seg_at(&l[(i + 1) % l.len()], 0.0);
        let sc = e.length().max(1.0);
        if !((e - s).length() <= 1e-8 * sc) || !(seg_len(&l[i]) >= min_len) {
            return false;
        }
    }
    true
}

/// Largest distance of the loop's points from its start.
pub fn extent(l: &[SegS]) -> f64 {
    let o = seg_at(&l[0], 0.0);
    l.iter().flat_map(|s| (0..=8).map(move |i| (seg_at(s, i as f64 / 8.0) - o).length())).fold(0.0, f64::max)
}

/// Chord a-b of an edge between parameters ta, tb: largest deviation at corresponding parameters
fn chord_dev(seg: &SegS, ta: f64, tb: f64, a: Vec3, b: Vec3) -> f64 {
    let mut m: f64 = 0.0;
    for i in 1..16 {
        let s = i as f64 / 16.0;
        m = m.max((seg_at(seg, ta + (tb - ta) * s) - (a + (b - a) * s)).length());
    }
    m
}

/// The polygon must visit the loop's edges in order.
pub fn check_polygon(poly: &[Vec3], l: &[SegS]) -> R {
    let n = poly.len();
    if n < 2 {
        return Err(format!("polygon has {} vertices", n));
    }
    let sc = scale_of(poly);
    for i in 0..n {
        let j = (i + 1) % n;
        if !((poly[i] - poly[j]).length() > 1e-7) {
            return Err(format!("vertices {} and {} of {} coincide", i, j, n));
        }
    }
    let starts: Vec<Vec3> = l.iter().map(|s| seg_at(s, 0.0)).collect();
    let mut w = Walk { poly, l, starts, tabs: l.iter().map(SegTab::new).collect(), eps: 1e-7 * sc + 1e-9, failed: BTreeSet::new(), best: None };
    for first in 0..n {
        if (poly[first] - w.starts[0]).length() <= MERGE {
            w.failed.clear();
            if w.edge(0, first, first) {
                return Ok(());
            }
        }
    }
    Err(w.best.map(|b| b.1).unwrap_or("start point of edge 0 is missing".into()))
}

/// Search for a way round the polygon that visits the edges in order.
struct Walk<'a> {
    poly: &'a [Vec3],
    l: &'a [SegS],
    starts: Vec<Vec3>,
    tabs: Vec<SegTab>,
    eps: f64,
    failed: BTreeSet<(usize, usize)>,
    best: Option<((usize, usize), String)>,
}

impl Walk<'_> {
    fn fail(&mut self, e: usize, k: usize, why: String) {
        if self.best.as_ref().map(|b| b.0 < (e, k)).unwrap_or(true) {
            self.best = Some(((e, k), why));
        }
    }
    fn stray(&self, e: usize, t0: f64, t1: f64, a: Vec3, b: Vec3) -> Option<String> {
        let s = &self.l[e];
        if !exact_class(&s.c) {
            return None;
        }
        let d = chord_dev(s, t0, t1, a, b);
        (d > 2.0 * s.tol + MERGE).then(|| format!("edge {}: polygon strays {:.3e} from it (tolerance {:.1e})", e, d, s.tol))
    }
    /// Can the edges from `e` on be visited from vertex `at` (the start of edge `e`) round to `first`?
    fn edge(&mut self, e: usize, at: usize, first: usize) -> bool {
        let n = self.poly.len();
        if e == self.l.len() {
            return at == first + n;
        }
        if !self.failed.insert((e, at)) {
            return false;
        }
        let p = |k: usize| self.poly[k % n];
        let end = self.starts[(e + 1) % self.starts.len()];
        let ends_at = |k: usize| (p(k) - end).length() <= MERGE && (e + 1 < self.l.len() || k == first + n);
        // an edge shorter than the merging distance may have no vertex of its own
        let s = &self.l[e];
        if ends_at(at) && (0..=16).all(|i| (seg_at(s, i as f64 / 16.0) - p(at)).length() <= MERGE) && self.edge(e + 1, at, first) {
            return true;
        }
        let p = |k: usize| self.poly[k % n];
        let ends_at = |k: usize| (p(k) - end).length() <= MERGE && (e + 1 < self.l.len() || k == first + n);
        let mut t = 0.0;
        let mut k = at + 1;
        while k <= first + n {
            if ends_at(k) {
                match self.stray(e, t, 1.0, p(k - 1), p(k)) {
                    Some(why) => self.fail(e, k, why),
                    None => {
                        if self.edge(e + 1, k, first) {
                            return true;
                        }
                    }
                }
            }
            if k == first + n {
                break;
            }
            let p = |k: usize| self.poly[k % n];
            let (tk, d) = self.tabs[e].locate_from(p(k), t, self.eps);
            if d > self.eps {
                self.fail(e, k, format!("vertex {} is {:.3e} away from edge {} (or out of order)", k % n, d, e));
                return false;
            }
            if let Some(why) = self.stray(e, t, tk, p(k - 1), p(k)) {
                self.fail(e, k, why);
                return false;
            }
            t = tk;
            k += 1;
        }
        self.fail(e, k, format!("start point of edge {} is missing", (e + 1) % self.starts.len()));
        false
    }
}

// ---------------------------------------------------------------- boundary of a mesh

/// The vertices of a mesh that lie on each loop, in loop order.
pub fn boundary_vertices(m: &TriangleMesh, bounds: &[Vec<SegS>], eps: f64) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    for l in bounds {
        let tabs: Vec<SegTab> = l.iter().map(SegTab::new).collect();
        let mut on: Vec<(f64, usize)> = Vec::new();
        for (i, p) in m.vertices.iter().enumerate() {
            let mut best = (0.0, f64::MAX);
            for (e, tab) in tabs.iter().enumerate() {
                // cheap reject
                let (t, d) = tab.locate(*p, eps);
                if d <= eps && d < best.1 {
                    let end = (p.clone() - seg_at(&tab.seg, 1.0)).length() <= eps;
                    let pos = if end { ((e + 1) % l.len()) as f64 } else { e as f64 + t.min(1.0 - 1e-12) };
                    best = (pos, d);
                }
            }
            if best.1 <= eps {
                on.push((best.0, i));
            }
        }
        on.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
        out.push(on.into_iter().map(|x| x.1).collect());
    }
    out
}

fn indices_ok(m: &TriangleMesh) -> R {
    if m.triangles.len() % 3 != 0 {
        return Err("triangle index count is not a multiple of three".into());
    }
    for t in m.triangles.chunks(3) {
        for i in t {
            if *i as usize >= m.vertices.len() {
                return Err(format!("triangle index {} out of {} vertices", i, m.vertices.len()));
            }
        }
        if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
            return Err(format!("degenerate triangle {:?}", t));
        }
    }
    if !m.vertices.iter().all(|v| v.is_finite()) {
        return Err("a vertex is not finite".into());
    }
    Ok(())
}

pub fn area2(p: &[Point2]) -> f64 {
    let n = p.len();
    (0..n).map(|i| p[i].perp_dot(p[(i + 1) % n])).sum::<f64>() * 0.5
}

fn dist_seg(p: Point2, a: Point2, b: Point2) -> f64 {
    let d = b - a;
    let l = d.length_squared();
    let t = if l > 0.0 { ((p - a).dot(d) / l).clamp(0.0, 1.0) } else { 0.0 };
    (a + d * t - p).length()
}

pub fn inside(polys: &[Vec<Point2>], p: Point2) -> bool {
    let mut c = false;
    for q in polys {
        let n = q.len();
        for i in 0..n {
            let (a, b) = (q[i], q[(i + 1) % n]);
            if (a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x {
                c = !c;
            }
        }
    }
    c
}

pub fn dist_polys(polys: &[Vec<Point2>], p: Point2) -> f64 {
    let mut d = f64::MAX;
    for q in polys {
        let n = q.len();
        for i in 0..n {
            d = d.min(dist_seg(p, q[i], q[(i + 1) % n]));
        }
    }
    d
}

fn seg_cross(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
    let s = |p: Point2, q: Point2, r: Point2| (q - p).perp_dot(r - p);
    s(a, b, c) * s(a, b, d) < 0.0 && s(c, d, a) * s(c, d, b) < 0.0
}

/// Simple outer polygon, counter-clockwise, clockwise disjoint holes inside it, everything at least `margin` apart.
pub fn region_ok(polys: &[Vec<Point2>], margin: f64) -> bool {
    if polys.is_empty() {
        return false;
    }
    for (i, p) in polys.iter().enumerate() {
        let a = area2(p);
        if !(a.abs() > margin * margin) || (i == 0) != (a > 0.0) {
            return false;
        }
        // simple, and not nearly touching itself
        let n = p.len();
        let per: f64 = (0..n).map(|k| (p[(k + 1) % n] - p[k]).length()).sum();
        let mut pos = vec![0.0; n];
        for k in 1..n {
            pos[k] = pos[k - 1] + (p[k] - p[k - 1]).length();
        }
        for k in 0..n {
            for j in k + 1..n {
                if j != k + 1 && !(k == 0 && j == n - 1) && seg_cross(p[k], p[k + 1], p[j], p[(j + 1) % n]) {
                    return false;
                }
            }
            // two places far apart along the loop must not be close in space
            for j in 0..n {
                let along = (pos[j] - pos[k]).abs();
                let along = along.min(per - along);
                if along > 4.0 * margin && dist_seg(p[k], p[j], p[(j + 1) % n]) < margin && {
                    let e = (pos[k] - (pos[j] + (p[(j + 1) % n] - p[j]).length())).abs();
                    e.min(per - e) > 4.0 * margin
                } {
                    return false;
                }
            }
        }
    }
    for i in 1..polys.len() {
        if !polys[i].iter().all(|p| inside(&polys[..1], *p)) {
            return false;
        }
        for j in 0..i {
            let (a, b) = (&polys[i], &polys[j]);
            for k in 0..a.len() {
                for l in 0..b.len() {
                    if seg_cross(a[k], a[(k + 1) % a.len()], b[l], b[(l + 1) % b.len()]) {
                        return false;
                    }
                }
            }
            for p in &polys[i] {
                if dist_polys(&polys[j..j + 1], *p) < margin {
                    return false;
                }
            }
            for p in &polys[j] {
                if dist_polys(&polys[i..i + 1], *p) < margin {
                    return false;
                }
            }
            if j > 0 && (inside(&polys[j..j + 1], polys[i][0]) || inside(&polys[i..i + 1], polys[j][0])) {
                return false;
            }
        }
    }
    true
}

/// Dense polygon of a loop under a projection.
pub fn dense(l: &[SegS], n: usize, f: &dyn Fn(Vec3) -> Point2) -> Vec<Point2> {
    let mut v = Vec::new();
    for s in l {
        let k = match &s.c {
            CurveS::Line { .. } => n.min(8),
            _ => n,
        };
        for i in 0..k {
            v.push(f(seg_at(s, i as f64 / k as f64)));
        }
    }
    v
}

fn hash01(i: u64) -> f64 {
    (simos::world::splitmix(i) >> 11) as f64 / (1u64 << 53) as f64
}

fn orient_word(x: f64) -> &'static str {
    if x < 0.0 {
        "against"
    } else {
        "with"
    }
}

/// The vertices on each bound make up a polygon that follows the bound.
fn bound_polys_follow(m: &TriangleMesh, bounds: &[Vec<SegS>], bv: &[Vec<usize>]) -> R {
    for (li, (l, v)) in bounds.iter().zip(bv).enumerate() {
        let poly: Vec<Vec3> = v.iter().map(|&i| m.vertices[i]).collect();
        check_polygon(&poly, l).map_err(|e| format!("bound {}: {}", li, e))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C13: planar faces

pub fn plane_frame(s: &SurfS) -> Option<(Vec3, Vec3, Vec3, Vec3)> {
    if let SurfS::Plane { o, n, u } = s {
        let (n, u) = (v3(*n), v3(*u));
        Some((v3(*o), n, u, n.cross(u)))
    } else {
        None
    }
}

pub fn planar_pre(s: &SurfS, b: &[Vec<SegS>]) -> bool {
    let Some((o, n, u, v)) = plane_frame(s) else { return false };
    if (n.length() - 1.0).abs() > 1e-9 || (u.length() - 1.0).abs() > 1e-9 || n.dot(u).abs() > 1e-9 {
        return false;
    }
    let tol = b.iter().flatten().map(|s| s.tol).fold(0.0, f64::max);
    for l in b {
        if !loop_closed(l, 0.02) || l.iter().any(|s| !(s.tol >= 1e-5)) {
            return false;
        }
        for s in l {
            for i in 0..=8 {
                if (seg_at(s, i as f64 / 8.0) - o).dot(n).abs() > 1e-9 * (1.0 + o.length()) {
                    return false;
                }
            }
        }
    }
    let f = |p: Vec3| Point2::new((p - o).dot(u), (p - o).dot(v));
    let polys: Vec<Vec<Point2>> = b.iter().map(|l| dense(l, 24, &f)).collect();
    region_ok(&polys, 0.02f64.max(6.0 * tol))
}

pub fn check_planar(m: &TriangleMesh, s: &SurfS, b: &[Vec<SegS>]) -> R {
    indices_ok(m)?;
    let (o, n, u, v) = plane_frame(s).unwrap();
    let f = |p: Vec3| Point2::new((p - o).dot(u), (p - o).dot(v));
    let sc = scale_of(&m.vertices);
    if m.triangles.is_empty() {
        return Err("no triangles".into());
    }
    for (i, p) in m.vertices.iter().enumerate() {
        if (*p - o).dot(n).abs() > 1e-7 * sc {
            return Err(format!("vertex {} is out of the plane", i));
        }
    }
    let bv = boundary_vertices(m, b, 1e-7 * sc);
    bound_polys_follow(m, b, &bv)?;
    let polys: Vec<Vec<Point2>> = bv.iter().map(|v| v.iter().map(|&i| f(m.vertices[i])).collect()).collect();
    let on: BTreeSet<usize> = bv.iter().flatten().cloned().collect();
    for (i, p) in m.vertices.iter().enumerate() {
        if !on.contains(&i) && !inside(&polys, f(*p)) && dist_polys(&polys, f(*p)) > 1e-7 * sc {
            return Err(format!("vertex {} lies outside the region", i));
        }
    }
    let region = polys.iter().map(|p| area2(p)).sum::<f64>();
    let size = polys[0].iter().map(|p| p.length()).fold(1.0, f64::max);
    let mut total = 0.0;
    if std::env::var("DST_DEBUG").is_ok() {
        let pl: Vec<Vec<[f64; 2]>> = polys.iter().map(|p| p.iter().map(|q| [q.x, q.y]).collect()).collect();
        let vs: Vec<[f64; 2]> = m.vertices.iter().map(|p| [f(*p).x, f(*p).y]).collect();
        eprintln!("DUMP {}", serde_json::json!({"polys": pl, "v": vs, "t": m.triangles}));
    }
    let tris: Vec<[Point2; 3]> =
        m.triangles.chunks(3).map(|t| [f(m.vertices[t[0] as usize]), f(m.vertices[t[1] as usize]), f(m.vertices[t[2] as usize])]).collect();
    for (i, t) in tris.iter().enumerate() {
        let a = area2(t);
        if a < 1e-13 * size * size {
            return Err(format!("triangle {} is oriented {} the face normal (area {:.3e})", i, orient_word(a), a));
        }
        total += a.abs();
    }
    let nv = m.vertices.len() as f64;
    if (total - region).abs() > 1e-6 * size + 2e-7 * nv {
        return Err(format!("triangle areas add up to {:.9}, the region has {:.9}", total, region));
    }
    // overlaps and gaps by point sampling
    let (mut lo, mut hi) = (polys[0][0], polys[0][0]);
    for p in &polys[0] {
        lo = lo.min(*p);
        hi = hi.max(*p);
    }
    for k in 0..240u64 {
        let p = Point2::new(lo.x + (hi.x - lo.x) * hash01(2 * k), lo.y + (hi.y - lo.y) * hash01(2 * k + 1));
        if dist_polys(&polys, p) < 1e-4 * size {
            continue;
        }
        let mut c = 0;
        let mut skip = false;
        for t in &tris {
            let d: Vec<f64> = (0..3).map(|i| (t[(i + 1) % 3] - t[i]).perp_dot(p - t[i])).collect();
            if d.iter().all(|x| *x > 0.0) {
                c += 1;
            }
            if d.iter().any(|x| x.abs() < 1e-7 * size) {
                skip = true;
                break;
            }
        }
        if skip {
            continue;
        }
        let want = inside(&polys, p) as i32;
        if c != want {
            return Err(format!("point ({:.4}, {:.4}) is covered {} times instead of {}", p.x, p.y, c, want));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14, C15: advancing-front meshes

/// Parameter map of a curved face: unrolled cylinder or spline parameters.
pub enum PMap {
    Cyl { o: Vec3, axis: Vec3, x: Vec3, y: Vec3, r: f64, cut: f64 },
    Inv(Inverter),
}

impl PMap {
    pub fn new(s: &SurfS, b: &[Vec<SegS>]) -> Option<PMap> {
        match s {
            SurfS::Cyl { o, axis, refd, r } => {
                let (o, axis, x) = (v3(*o), v3(*axis), v3(*refd));
                let y = axis.cross(x);
                // cut the cylinder in the middle of the largest angular gap of the boundary
                let mut angles: Vec<f64> = Vec::new();
                for s in b.iter().flatten() {
                    for i in 0..=32 {
                        let p = seg_at(s, i as f64 / 32.0) - o;
                        angles.push(p.dot(y).atan2(p.dot(x)));
                    }
                }
                angles.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
                let tau = std::f64::consts::TAU;
                let mut best = (angles[0] + tau - angles[angles.len() - 1], angles[angles.len() - 1]);
                for w in angles.windows(2) {
                    if w[1] - w[0] > best.0 {
                        best = (w[1] - w[0], w[0]);
                    }
                }
                if best.0 < 0.3 {
                    return None;
                }
                Some(PMap::Cyl { o, axis, x, y, r: *r, cut: best.1 + best.0 / 2.0 })
            }
            SurfS::BSp { ku, kv, .. } => {
                Some(PMap::Inv(Inverter::new(s, (ku[0], ku[ku.len() - 1]), (kv[0], kv[kv.len() - 1]))))
            }
            _ => None,
        }
    }
    /// parameters and distance to the surface
    pub fn map(&self, p: Vec3) -> (Point2, f64) {
        match self {
            PMap::Cyl { o, axis, x, y, r, cut } => {
                let d = p - *o;
                let a = d.dot(*y).atan2(d.dot(*x));
                let tau = std::f64::consts::TAU;
                let mut a = a - cut;
                while a < 0.0 {
                    a += tau;
                }
                while a >= tau {
                    a -= tau;
                }
                let z = d.dot(*axis);
                let rad = (d - *axis * z).length();
                (Point2::new(a * r, z), (rad - r).abs())
            }
            PMap::Inv(i) => i.find(p),
        }
    }
}

pub fn curved_pre(s: &SurfS, b: &[Vec<SegS>]) -> bool {
    let tol = b.iter().flatten().map(|s| s.tol).fold(0.0, f64::max);
    for l in b {
        if !loop_closed(l, 0.02) || l.iter().any(|s| !(s.tol >= 1e-5)) {
            return false;
        }
    }
    if let SurfS::Cyl { axis, refd, r, .. } = s {
        let (a, x) = (v3(*axis), v3(*refd));
        if (a.length() - 1.0).abs() > 1e-9 || (x.length() - 1.0).abs() > 1e-9 || a.dot(x).abs() > 1e-9 || !(*r > 0.05) {
            return false;
        }
    }
    let Some(pm) = PMap::new(s, b) else { return false };
    let sc = b.iter().flatten().map(|s| seg_at(s, 0.0).length()).fold(1.0, f64::max);
    for s in b.iter().flatten() {
        for i in 0..=8 {
            if pm.map(seg_at(s, i as f64 / 8.0)).1 > 1e-7 * sc {
                return false;
            }
        }
    }
    let mut polys: Vec<Vec<Point2>> = b.iter().map(|l| dense(l, 16, &|p| pm.map(p).0)).collect();
    // either direction is fine, holes opposite to the outer loop
    if area2(&polys[0]) < 0.0 {
        for p in polys.iter_mut() {
            p.reverse();
        }
    }
    let size = match s {
        SurfS::Cyl { .. } => 1.0,
        SurfS::BSp { ku, .. } => (ku[ku.len() - 1] - ku[0]) / 10.0,
        _ => return false,
    };
    region_ok(&polys, (0.05 * size).max(6.0 * tol * size))
}

pub fn check_curved(m: &TriangleMesh, s: &SurfS, b: &[Vec<SegS>]) -> R {
    indices_ok(m)?;
    if m.triangles.is_empty() {
        return Err("no triangles".into());
    }
    let pm = PMap::new(s, b).unwrap();
    let sc = scale_of(&m.vertices);
    let mapped: Vec<(Point2, f64)> = m.vertices.iter().map(|p| pm.map(*p)).collect();
    let bv = boundary_vertices(m, b, 1e-7 * sc);
    bound_polys_follow(m, b, &bv)?;
    let on: BTreeSet<usize> = bv.iter().flatten().cloned().collect();
    let polys: Vec<Vec<Point2>> = bv.iter().map(|v| v.iter().map(|&i| mapped[i].0).collect()).collect();
    let size = polys[0].iter().map(|p| p.length()).fold(0.0, f64::max);
    let slack = match s {
        SurfS::Cyl { .. } => 4.0 * b.iter().flatten().map(|s| s.tol).fold(0.0, f64::max),
        _ => 0.0,
    };
    for (i, q) in mapped.iter().enumerate() {
        if q.1 > 1e-6 * sc {
            return Err(format!("vertex {} is {:.3e} off the surface", i, q.1));
        }
        // the chords of the boundary polygon are straight in the projection the mesher uses, not on the unrolled cylinder
        if !on.contains(&i) && !inside(&polys, q.0) && dist_polys(&polys, q.0) > 1e-3 * size + slack {
            return Err(format!("vertex {} lies outside the region", i));
        }
    }
    // edges
    let mut edges: BTreeMap<(u32, u32), u32> = BTreeMap::new();
    let mut used: BTreeSet<u32> = BTreeSet::new();
    for t in m.triangles.chunks(3) {
        for k in 0..3 {
            let e = (t[k], t[(k + 1) % 3]);
            used.insert(e.0);
            let c = edges.entry(e).or_insert(0);
            *c += 1;
            if *c > 1 {
                return Err(format!("edge {:?} is used twice in the same direction", e));
            }
        }
    }
    let mut border: BTreeMap<u32, u32> = BTreeMap::new();
    for e in edges.keys() {
        if !edges.contains_key(&(e.1, e.0)) && border.insert(e.0, e.1).is_some() {
            return Err(format!("the mesh boundary branches at vertex {}", e.0));
        }
    }
    let n_border = border.len();
    let mut dirs = Vec::new();
    for (li, v) in bv.iter().enumerate() {
        let n = v.len();
        let fwd = (0..n).filter(|&i| border.get(&(v[i] as u32)) == Some(&(v[(i + 1) % n] as u32))).count();
        let bwd = (0..n).filter(|&i| border.get(&(v[(i + 1) % n] as u32)) == Some(&(v[i] as u32))).count();
        if fwd == n {
            dirs.push(1);
        } else if bwd == n {
            dirs.push(-1);
        } else {
            return Err(format!("bound {}: only {} of its {} polygon edges are boundary edges of the mesh", li, fwd.max(bwd), n));
        }
    }
    if dirs.iter().any(|d| *d != dirs[0]) {
        return Err("the mesh runs with one bound and against another".into());
    }
    let n_bound: usize = bv.iter().map(|v| v.len()).sum();
    if n_border != n_bound {
        return Err(format!("{} boundary edges in the mesh, {} in the bounds", n_border, n_bound));
    }
    if used.len() != m.vertices.len() {
        return Err(format!("{} of {} vertices are used", used.len(), m.vertices.len()));
    }
    // connected and of the right topology
    let und = edges.keys().filter(|e| e.0 < e.1 || !edges.contains_key(&(e.1, e.0))).count() as i64;
    let euler = m.vertices.len() as i64 - und + (m.triangles.len() / 3) as i64;
    let want = 2 - bv.len() as i64;
    if euler != want {
        return Err(format!("Euler characteristic {} instead of {}", euler, want));
    }
    // exactly one cover: all triangles the same way round, areas add up
    let region = polys.iter().map(|p| area2(p)).sum::<f64>();
    let sign = region.signum() * dirs[0] as f64;
    let mut total = 0.0;
    let mut against = 0.0;
    for t in m.triangles.chunks(3) {
        let a = area2(&[mapped[t[0] as usize].0, mapped[t[1] as usize].0, mapped[t[2] as usize].0]) * sign;
        total += a;
        if a < 0.0 {
            against -= a;
        }
    }
    if (total - region.abs()).abs() > 1e-6 * region.abs() {
        return Err(format!("triangles cover {:.9} of the region's {:.9}", total, region.abs()));
    }
    if against > 0.02 * region.abs() {
        return Err(format!("folded: {:.3e} of {:.3e} is covered the wrong way round", against, region.abs()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C11: samples

/// Lower bound of the work any adaptive sampling needs, for a generous upper bound on steps.
pub fn sample_budget(seg: &SegS) -> f64 {
    // second differences on a fine grid estimate the curvature
    let n = 256;
    let p: Vec<Vec3> = (0..=n).map(|i| seg_at(seg, i as f64 / n as f64)).collect();
    let mut worst: f64 = 0.0;
    for w in p.windows(3) {
        worst = worst.max((w[0] - w[1] * 2.0 + w[2]).length());
    }
    let m2 = worst * (n * n) as f64;
    let len: f64 = p.windows(2).map(|w| (w[1] - w[0]).length()).sum();
    let smooth = (m2 / (8.0 * seg.tol)).sqrt();
    // piecewise linear curves have corners: bisection down to the tolerance at each
    let corners = match &seg.c {
        CurveS::Poly { v } => v.len() as f64,
        CurveS::BSp { p, .. } => p.len() as f64,
        _ => 1.0,
    };
    let smooth = if matches!(&seg.c, CurveS::Poly { .. }) { 0.0 } else { smooth };
    smooth + corners * (2.0 + (len / seg.tol).max(1.0).log2())
}

pub fn check_params(u: &[f64], seg: &SegS) -> R {
    let (a, b) = seg.r;
    if u.len() < 2 {
        return Err(format!("{} parameters", u.len()));
    }
    if u[0] != a || u[u.len() - 1] != b {
        return Err(format!("parameters run from {} to {}, the range is {} to {}", u[0], u[u.len() - 1], a, b));
    }
    for w in u.windows(2) {
        if !(if a < b { w[0] < w[1] } else { w[0] > w[1] }) {
            return Err(format!("parameters {} and {} are not strictly monotone", w[0], w[1]));
        }
    }
    if u.len() as f64 > 4.0 * sample_budget(seg) + 8.0 {
        return Err(format!("{} samples, far more than size over tolerance needs", u.len()));
    }
    if exact_class(&seg.c) {
        for w in u.windows(2) {
            let (p, q) = (eval_curve(&seg.c, w[0]), eval_curve(&seg.c, w[1]));
            for i in 1..32 {
                let s = i as f64 / 32.0;
                let d = (eval_curve(&seg.c, w[0] + (w[1] - w[0]) * s) - (p + (q - p) * s)).length();
                if d > 2.0 * seg.tol + 1e-9 * p.length().max(1.0) {
                    return Err(format!("between {} and {} the polyline is {:.3e} off the curve (tolerance {:.1e})", w[0], w[1], d, seg.tol));
                }
            }
        }
    }
    Ok(())
}

/// Sampled points: start and end of the segment, on it, in order.
pub fn check_points(p: &[Vec3], seg: &SegS) -> R {
    let sc = scale_of(p);
    let eps = 1e-7 * sc;
    if p.len() < 2 {
        return Err(format!("{} points", p.len()));
    }
    let (s, e) = (seg_at(seg, 0.0), seg_at(seg, 1.0));
    if (p[0] - s).length() > 1e-9 * sc || (p[p.len() - 1] - e).length() > 1e-9 * sc {
        return Err("does not run from the start to the end of the segment".into());
    }
    let tab = SegTab::new(seg);
    let mut t = 0.0;
    for i in 1..p.len() - 1 {
        let (ti, d) = tab.locate_from(p[i], t, eps);
        if d > eps {
            return Err(format!("point {} is {:.3e} off the curve (or out of order)", i, d));
        }
        if exact_class(&seg.c) {
            let d = chord_dev(seg, t, ti, p[i - 1], p[i]);
            if d > 2.0 * seg.tol + 10.0 * eps {
                return Err(format!("before point {} the polyline is {:.3e} off the curve (tolerance {:.1e})", i, d, seg.tol));
            }
        }
        t = ti;
    }
    if exact_class(&seg.c) {
        let d = chord_dev(seg, t, 1.0, p[p.len() - 2], p[p.len() - 1]);
        if d > 2.0 * seg.tol + 10.0 * eps {
            return Err(format!("before the last point the polyline is {:.3e} off the curve (tolerance {:.1e})", d, seg.tol));
        }
    }
    Ok(())
}
