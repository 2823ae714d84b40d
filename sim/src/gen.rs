//! Seeded generation of workloads.
use crate::geo::*;
use crate::scn::*;
use crate::topo;
use geom3d::Vec3;
use simos::world::splitmix;
use std::f64::consts::{PI, TAU};

pub struct G(pub u64);

impl G {
    pub fn new(seed: u64) -> G {
        G(splitmix(seed ^ 0x6a09e667f3bcc908))
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        splitmix(self.0)
    }
    pub fn n(&mut self, m: u64) -> u64 {
        self.u() % m.max(1)
    }
    pub fn i(&mut self, a: usize, b: usize) -> usize {
        a + self.n((b - a + 1) as u64) as usize
    }
    pub fn f(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn p(&mut self, pr: f64) -> bool {
        self.f(0.0, 1.0) < pr
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len() as u64) as usize]
    }

    // ---------------------------------------------------------------- numbers

    pub fn num(&mut self, mode: u64) -> f64 {
        match mode % 6 {
            0 => self.n(21) as f64 - 10.0,
            1 => (self.f(-100.0, 100.0) * 100.0).round() / 100.0,
            2 => self.f(-1000.0, 1000.0),
            3 => self.f(-1.0, 1.0) * 10f64.powi(self.n(60) as i32 - 30),
            4 => *self.pick(&[
                0.0,
                -0.0,
                1.0,
                -1.0,
                0.1,
                1.0 / 3.0,
                1e-7,
                123456789.123456789,
                1e21,
                -1e-20,
                5e15,
                9007199254740993.0,
                2.5e-8,
                1e30,
                -7.25e29,
            ]),
            _ => *self.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, -f64::MAX, 1e300, -1e-300, 1e22, 123e100, 4.9e-310]),
        }
    }
    /// coordinate mode: finite, sometimes extreme
    pub fn mode(&mut self) -> u64 {
        *self.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5])
    }
    pub fn p3(&mut self, mode: u64) -> P3 {
        [self.num(mode), self.num(mode), self.num(mode)]
    }
    pub fn pts(&mut self, n: usize) -> Vec<P3> {
        let m = self.mode();
        let mix = self.p(0.3);
        (0..n)
            .map(|_| {
                let m = if mix { self.mode() } else { m };
                self.p3(m)
            })
            .collect()
    }
    /// list sizes: empty, one, few, many
    pub fn len(&mut self) -> usize {
        match self.n(12) {
            0 => 0,
            1 => 1,
            2..=7 => self.i(2, 12),
            8..=10 => self.i(10, 60),
            _ => self.i(60, 400),
        }
    }

    // ---------------------------------------------------------------- meshes, faces

    pub fn mesh(&mut self, f32range: bool) -> MeshS {
        let n = self.len();
        let nv = match self.n(8) {
            0 if n > 0 => self.i(1, 3),
            _ => n,
        };
        let m = if f32range { *self.pick(&[0, 1, 2, 2, 3, 4]) } else { self.mode() };
        let v: Vec<P3> = (0..nv).map(|_| self.p3(m)).collect();
        let nm = if self.p(0.4) { (0..nv).map(|_| self.p3(1)).collect() } else { vec![] };
        let nt = if nv == 0 { 0 } else { self.len() };
        let t = (0..nt).map(|_| [self.n(nv as u64) as u32, self.n(nv as u64) as u32, self.n(nv as u64) as u32]).collect();
        MeshS { v, n: nm, t }
    }
    pub fn small_mesh(&mut self) -> MeshS {
        let nv = self.i(1, 8);
        let m = self.n(3);
        let v: Vec<P3> = (0..nv).map(|_| self.p3(m)).collect();
        let n = if self.p(0.4) { (0..nv).map(|_| self.p3(1)).collect() } else { vec![] };
        let t = (0..self.i(0, 10)).map(|_| [self.n(nv as u64) as u32, self.n(nv as u64) as u32, self.n(nv as u64) as u32]).collect();
        MeshS { v, n, t }
    }
    pub fn face(&mut self, f32range: bool, det: bool) -> FaceS {
        match self.n(10) {
            0..=4 => FaceS::Mesh(self.mesh(f32range)),
            5..=7 => self.patch(),
            8 if !det => FaceS::Wobble { seed: self.n(1 << 40), n: self.i(0, 30) as u32 },
            9 => {
                let (s, b) = if det { self.planar(0, false) } else { self.planar(1, false) };
                FaceS::Trim { s, b }
            }
            _ => FaceS::Mesh(self.small_mesh()),
        }
    }
    pub fn faces(&mut self, f32range: bool, det: bool) -> Vec<FaceS> {
        let n = match self.n(10) {
            0 => 0,
            1..=4 => 1,
            5..=8 => self.i(2, 4),
            _ => self.i(4, 9),
        };
        (0..n).map(|_| self.face(f32range, det)).collect()
    }
    pub fn patch(&mut self) -> FaceS {
        let s = self.any_surf();
        let r = self.surf_range(&s);
        let d = if self.p(0.2) { (self.i(8, 20), self.i(8, 20)) } else { (self.i(1, 6), self.i(1, 6)) };
        FaceS::Patch { s, r, d }
    }
    pub fn surf_range(&mut self, s: &SurfS) -> ((f64, f64), (f64, f64)) {
        match s {
            SurfS::BSp { ku, kv, .. } | SurfS::RBSp { ku, kv, .. } => ((ku[0], ku[ku.len() - 1]), (kv[0], kv[kv.len() - 1])),
            SurfS::Bez { .. } => ((0.0, 1.0), (0.0, 1.0)),
            SurfS::Spin { .. } => ((0.0, 1.0), (0.0, self.f(0.5, TAU))),
            SurfS::Sweep { .. } => ((0.0, 1.0), (0.0, 1.0)),
            _ => ((self.f(-3.0, 0.0), self.f(0.5, 3.0)), (self.f(-1.0, 0.5), self.f(1.0, 5.0))),
        }
    }

    // ---------------------------------------------------------------- directions, curves

    pub fn unit(&mut self) -> Vec3 {
        if self.p(0.4) {
            return *self.pick(&[Vec3::X, Vec3::Y, Vec3::Z, -Vec3::X, -Vec3::Y, -Vec3::Z]);
        }
        loop {
            let v = Vec3::new(self.f(-1.0, 1.0), self.f(-1.0, 1.0), self.f(-1.0, 1.0));
            if v.length() > 0.2 && v.length() < 1.0 {
                return v.normalize();
            }
        }
    }
    /// normal and a perpendicular direction
    pub fn frame(&mut self) -> (Vec3, Vec3) {
        let n = self.unit();
        loop {
            let u = self.unit();
            let w = u - n * u.dot(n);
            if w.length() > 0.3 {
                return (n, w.normalize());
            }
        }
    }
    pub fn pos(&mut self, r: f64) -> P3 {
        [self.f(-r, r), self.f(-r, r), self.f(-r, r)]
    }
    /// mostly the usual degrees
    pub fn degree(&mut self, lo: usize, hi: usize) -> usize {
        if self.p(0.12) {
            self.i(4, 7)
        } else {
            self.i(lo, hi)
        }
    }
    pub fn clamped(&mut self, n: usize, deg: usize) -> Vec<f64> {
        let (a, b) = *self.pick(&[(0.0, 1.0), (0.0, 1.0), (0.0, 10.0), (-2.0, 3.0), (1.0, 2.5)]);
        let m = n - deg - 1;
        let mut inner: Vec<f64> = (0..m).map(|i| a + (b - a) * (i as f64 + 1.0) / (m + 1) as f64).collect();
        if self.p(0.5) {
            for x in inner.iter_mut() {
                *x += self.f(-0.3, 0.3) * (b - a) / (m + 1) as f64;
            }
        }
        if m >= 2 && deg >= 2 && self.p(0.15) {
            inner[1] = inner[0];
        }
        let mut k = vec![a; deg + 1];
        k.extend(inner);
        k.extend(vec![b; deg + 1]);
        k
    }
    /// knots whose ends do not have full multiplicity
    pub fn unclamped(&mut self, n: usize, deg: usize) -> Vec<f64> {
        let len = n + deg + 1;
        let (a, b) = *self.pick(&[(0.0, 1.0), (0.0, 10.0), (-2.0, 3.0)]);
        let mut mult = Vec::new();
        let mut sum = 0;
        while sum < len {
            let m = if self.p(0.6) { 1 } else { self.i(1, deg + 1) };
            let inner = !mult.is_empty() && sum + m < len;
            let m = m.min(len - sum).min(if inner { deg } else { deg + 1 });
            mult.push(m);
            sum += m;
        }
        if mult.len() < 2 {
            return self.clamped(n, deg);
        }
        let d = (mult.len() - 1) as f64;
        mult.iter().enumerate().flat_map(|(i, m)| vec![if i as f64 == d { b } else { a + (b - a) * i as f64 / d }; *m]).collect()
    }
    /// a flat cubic whose knots are not clamped: it leaves the origin, or comes back to it, in a wide bend
    pub fn unclamped_cubic(&mut self) -> SegS {
        let n = self.i(4, 7);
        let k = self.unclamped(n, 3);
        let (a, s) = (self.f(0.0, TAU), self.f(0.6, 0.8) * if self.p(0.5) { 1.0 } else { -1.0 });
        let p = (0..n).map(|i| {
            let (r, a) = (self.f(3.0, 8.0), a + s * i as f64);
            [r * a.cos(), r * a.sin(), 0.0]
        });
        let p = p.collect();
        let r = (k[0], k[k.len() - 1]);
        SegS { c: CurveS::BSp { p, k, deg: 3 }, r, tol: 0.01 }
    }
    /// a chain of points that wanders on
    pub fn walk(&mut self, n: usize, step: f64, flat: bool) -> Vec<P3> {
        let mut p = v3(self.pos(5.0));
        let mut d = self.unit();
        if flat {
            p.z = 0.0;
            d.z = 0.0;
            if d.length() < 0.1 {
                d = Vec3::X;
            }
            d = d.normalize();
        }
        let mut o = vec![a3(p)];
        for _ in 1..n {
            let mut t = self.unit();
            if flat {
                t.z = 0.0;
            }
            d = d * 1.2 + t;
            d = if d.length() < 0.05 { Vec3::X } else { d.normalize() };
            if flat {
                d.z = 0.0;
            }
            p += d * step * self.f(0.3, 1.5);
            o.push(a3(p));
        }
        o
    }
    pub fn weights(&mut self, p: Vec<P3>) -> Vec<P4> {
        p.into_iter()
            .map(|p| {
                let w = self.f(0.4, 2.5);
                [p[0] * w, p[1] * w, p[2] * w, w]
            })
            .collect()
    }
    pub fn circle(&mut self, flat: bool) -> CurveS {
        let (mut n, mut u) = self.frame();
        let mut c = self.pos(10.0);
        if flat {
            n = if self.p(0.5) { Vec3::Z } else { -Vec3::Z };
            let a = self.f(0.0, TAU);
            u = Vec3::new(a.cos(), a.sin(), 0.0);
            c[2] = 0.0;
        }
        CurveS::Circle { c, r: self.f(0.2, 20.0), axis: a3(n), refd: a3(u) }
    }
    pub fn curve(&mut self, flat: bool) -> (CurveS, (f64, f64)) {
        let fl = |p: P3, flat: bool| if flat { [p[0], p[1], 0.0] } else { p };
        match self.n(8) {
            0 => {
                let d = fl(a3(self.unit() * self.f(0.5, 3.0)), flat);
                let d = if v3(d).length() < 0.05 { [1.0, 0.0, 0.0] } else { d };
                (CurveS::Line { o: fl(self.pos(10.0), flat), d }, (self.f(-5.0, 0.0), self.f(0.5, 8.0)))
            }
            1 | 2 => {
                let a = self.f(-1.0, TAU);
                (self.circle(flat), (a, a + self.f(0.1, TAU)))
            }
            3 => (
                CurveS::Poly {
                    v: {
                        let k = self.i(2, 9);
                        self.walk(k, 2.0, flat)
                    },
                },
                (0.0, 1.0),
            ),
            4 | 5 => {
                let hi = if self.p(0.8) { 4 } else { 8 };
                let k = self.i(2, hi);
                let st = self.f(0.5, 6.0);
                let mut p = self.walk(k, st, flat);
                if self.p(0.25) && k == 4 {
                    // S-shaped and looping cubics
                    p.swap(1, 2);
                }
                (CurveS::Bez { p }, (0.0, 1.0))
            }
            6 => {
                let deg = self.degree(1, 4);
                let n = deg + 1 + self.i(0, 5);
                let k = self.clamped(n, deg);
                let r = (k[0], k[k.len() - 1]);
                (CurveS::BSp { p: self.walk(n, 2.0, flat), k, deg: deg as u8 }, r)
            }
            _ => {
                let w = self.p(0.5);
                if w {
                    let n = self.i(2, 5);
                    let p = self.walk(n, 2.0, flat);
                    (CurveS::RBez { p: self.weights(p) }, (0.0, 1.0))
                } else {
                    let deg = self.degree(1, 3);
                    let n = deg + 1 + self.i(0, 4);
                    let k = self.clamped(n, deg);
                    let r = (k[0], k[k.len() - 1]);
                    let p = self.walk(n, 2.0, flat);
                    (CurveS::RBSp { p: self.weights(p), k, deg: deg as u8 }, r)
                }
            }
        }
    }
    /// a segment: part of a curve, possibly backwards
    pub fn seg(&mut self, flat: bool) -> SegS {
        let (c, r) = self.curve(flat);
        let r = if self.p(0.35) {
            let a = self.f(0.0, 0.6);
            let b = a + self.f(0.15, 1.0) * (1.0 - a);
            (r.0 + (r.1 - r.0) * a, r.0 + (r.1 - r.0) * b)
        } else {
            r
        };
        // ends at vertices and knots, and within rounding error of the natural range
        let full = r;
        let mut r = r;
        if self.p(0.2) {
            let at: Vec<f64> = match &c {
                CurveS::Poly { v } => {
                    let l: Vec<f64> = v.windows(2).map(|w| (v3(w[1]) - v3(w[0])).length()).collect();
                    let t: f64 = l.iter().sum();
                    let mut x = 0.0;
                    l.iter()
                        .map(|d| {
                            x += d;
                            x / t
                        })
                        .collect()
                }
                CurveS::BSp { k, .. } | CurveS::RBSp { k, .. } => k.clone(),
                _ => vec![(r.0 + r.1) / 2.0],
            };
            let i = self.n(at.len() as u64) as usize;
            let x = at[i];
            let gap = 0.1 * (full.1 - full.0);
            if x - r.0 > gap && r.1 - x > 0.0 && self.p(0.5) {
                r.1 = x;
            } else if r.1 - x > gap && x > r.0 {
                r.0 = x;
            }
        }
        if self.p(0.2) {
            let n = self.i(1, 4) as i64;
            let ulp = |x: f64, d: i64| {
                if x == 0.0 {
                    (d as f64) * 1e-17
                } else {
                    f64::from_bits((x.to_bits() as i64 + if x > 0.0 { d } else { -d }) as u64)
                }
            };
            if self.p(0.7) {
                r.1 = ulp(r.1, -n);
            } else {
                r.0 = ulp(r.0, n);
            }
        }
        let r = if self.p(0.25) { (r.1, r.0) } else { r };
        SegS { c, r, tol: self.tol() }
    }
    pub fn tol(&mut self) -> f64 {
        *self.pick(&[0.01, 0.01, 0.001, 0.05, 0.1, 0.003, 1e-4])
    }

    // ---------------------------------------------------------------- surfaces

    pub fn plane(&mut self) -> SurfS {
        let (n, u) = self.frame();
        SurfS::Plane { o: self.pos(10.0), n: a3(n), u: a3(u) }
    }
    pub fn cyl(&mut self) -> SurfS {
        let (n, u) = self.frame();
        SurfS::Cyl { o: self.pos(10.0), axis: a3(n), refd: a3(u), r: self.f(0.5, 8.0) }
    }
    pub fn any_surf(&mut self) -> SurfS {
        match self.n(9) {
            0 => self.plane(),
            1 => self.cyl(),
            2 | 3 => self.sheet(),
            4 => {
                let SurfS::BSp { p, ku, kv, deg } = self.sheet() else { unreachable!() };
                let p = p.into_iter().map(|r| self.weights(r)).collect();
                SurfS::RBSp { p, ku, kv, deg }
            }
            5 => {
                let (n, m) = (self.i(2, 4), self.i(2, 4));
                SurfS::Bez { p: self.net(n, m) }
            }
            6 => {
                let a = self.unit();
                let c = {
                    let k = self.i(2, 4);
                    self.walk(k, 2.0, false)
                };
                SurfS::Spin { o: self.pos(3.0), axis: a3(a), c: Box::new(CurveS::Bez { p: c }) }
            }
            7 => {
                let p = CurveS::Bez {
                    p: {
                        let k = self.i(2, 4);
                        self.walk(k, 3.0, false)
                    },
                };
                let s = CurveS::Bez {
                    p: {
                        let k = self.i(2, 4);
                        self.walk(k, 1.0, false)
                    },
                };
                SurfS::Sweep { p: Box::new(p), s: Box::new(s) }
            }
            _ => SurfS::Umb { r: self.f(1.0, 10.0) },
        }
    }
    fn net(&mut self, n: usize, m: usize) -> Vec<Vec<P3>> {
        (0..n)
            .map(|i| (0..m).map(|j| [i as f64 * 2.0 + self.f(-0.4, 0.4), j as f64 * 2.0 + self.f(-0.4, 0.4), self.f(-1.0, 1.0)]).collect())
            .collect()
    }
    /// A B-spline sheet: bent gently or strongly, or rolled up, invertible.
    pub fn sheet(&mut self) -> SurfS {
        let deg = (self.degree(1, 3), self.degree(1, 3));
        let (n, m) = (deg.0 + 1 + self.i(0, 3), deg.1 + 1 + self.i(0, 3));
        let (mut ku, mut kv) = (self.clamped(n, deg.0), self.clamped(m, deg.1));
        // both directions of similar extent
        let rescale = |k: &mut Vec<f64>, lo: f64, hi: f64| {
            let (a, b) = (k[0], k[k.len() - 1]);
            for x in k.iter_mut() {
                *x = lo + (*x - a) / (b - a) * (hi - lo);
            }
        };
        let s = *self.pick(&[1.0, 1.0, 10.0, 4.0]);
        let o = if self.p(0.3) { self.f(-3.0, 3.0) } else { 0.0 };
        rescale(&mut ku, o, o + s);
        rescale(&mut kv, o, o + s * *self.pick(&[1.0, 1.0, 0.7, 1.5]));
        let gre = |k: &Vec<f64>, d: usize, i: usize| (1..=d).map(|j| k[i + j]).sum::<f64>() / d as f64;
        let size = *self.pick(&[10.0, 10.0, 5.0, 20.0]);
        // projecting on a surface with sharp creases is ambiguous: these are only gently bent
        let smooth = |k: &Vec<f64>, d: usize| d > 1 && k.windows(d).all(|w| w[0] < w[d - 1] || w[0] == k[0] || w[0] == k[k.len() - 1]);
        let rough = smooth(&ku, deg.0) && smooth(&kv, deg.1) && self.p(0.4);
        let amp = if rough { self.f(0.3, 2.0) / (n.max(m) - 1) as f64 } else { self.f(0.0, 0.12) } * size;
        let roll = if !rough && smooth(&ku, deg.0) && self.p(0.4) { self.f(0.5, 4.0) / size } else { 0.0 };
        let jit = if self.p(0.4) { 0.05 } else { 0.0 };
        let (nn, uu) = self.frame();
        let ww = nn.cross(uu);
        let org = v3(self.pos(10.0));
        let mut p = Vec::new();
        for i in 0..n {
            let mut row = Vec::new();
            for j in 0..m {
                let x = (gre(&ku, deg.0, i) - ku[0]) / s * size;
                let y = (gre(&kv, deg.1, j) - kv[0]) / s * size;
                let x = x + self.f(-1.0, 1.0) * jit * size / n as f64;
                let y = y + self.f(-1.0, 1.0) * jit * size / m as f64;
                let z = self.f(-1.0, 1.0) * amp;
                let (x, z) = if roll > 0.0 {
                    let r = 1.0 / roll - z * 0.3;
                    (r * (x * roll).sin(), r * (x * roll).cos())
                } else {
                    (x, z)
                };
                row.push(a3(org + uu * x + ww * y + nn * z));
            }
            p.push(row);
        }
        SurfS::BSp { p, ku, kv, deg: (deg.0 as u8, deg.1 as u8) }
    }

    // ---------------------------------------------------------------- plane loops in two dimensions

    /// A closed chain of 2D pieces, counter-clockwise.
    pub fn loop2(&mut self, c: [f64; 2], r: f64, kind: u64) -> Vec<Piece> {
        let a0 = self.f(0.0, TAU);
        match kind {
            // circle of k arcs
            0 => {
                let k = self.i(2, 4);
                (0..k).map(|i| Piece::Arc { c, r, a: a0 + TAU * i as f64 / k as f64, b: a0 + TAU * (i + 1) as f64 / k as f64 }).collect()
            }
            // star-shaped polygon
            1 => {
                let n = self.i(3, 12);
                let jag = self.f(0.0, 0.6);
                let v: Vec<[f64; 2]> = (0..n)
                    .map(|i| {
                        let a = a0 + TAU * (i as f64 + self.f(-0.25, 0.25)) / n as f64;
                        let q = r * (1.0 - jag * self.f(0.0, 1.0));
                        [c[0] + q * a.cos(), c[1] + q * a.sin()]
                    })
                    .collect();
                poly2(&v)
            }
            // rounded rectangle
            2 => {
                let (w, h) = (r * self.f(0.5, 1.0), r * self.f(0.5, 1.0));
                let q = w.min(h) * self.f(0.2, 0.8);
                let mut o = Vec::new();
                let cs = [(w - q, h - q), (q - w, h - q), (q - w, q - h), (w - q, q - h)];
                for (i, cc) in cs.iter().enumerate() {
                    let a = PI / 2.0 * i as f64;
                    let cc = [c[0] + cc.0, c[1] + cc.1];
                    o.push(Piece::Arc { c: cc, r: q, a, b: a + PI / 2.0 });
                    let e = [cc[0] + q * (a + PI / 2.0).cos(), cc[1] + q * (a + PI / 2.0).sin()];
                    let n = cs[(i + 1) % 4];
                    let a2 = a + PI / 2.0;
                    let s = [c[0] + n.0 + q * a2.cos(), c[1] + n.1 + q * a2.sin()];
                    o.push(Piece::Line { a: e, b: s });
                }
                o
            }
            // rectangle with notches
            3 => {
                let (w, h) = (r * self.f(0.6, 1.0), r * self.f(0.6, 1.0));
                let k = self.i(0, 3);
                let mut v = vec![[c[0] - w, c[1] - h], [c[0] + w, c[1] - h], [c[0] + w, c[1] + h]];
                let top = h;
                for i in 0..k {
                    let x1 = w - 2.0 * w * (i as f64 + 0.3) / k as f64;
                    let x0 = w - 2.0 * w * (i as f64 + 0.7) / k as f64;
                    let d = top - h * self.f(0.3, 1.5);
                    v.push([c[0] + x1, c[1] + top]);
                    v.push([c[0] + x1, c[1] + d]);
                    v.push([c[0] + x0, c[1] + d]);
                    v.push([c[0] + x0, c[1] + top]);
                }
                v.push([c[0] - w, c[1] + h]);
                poly2(&v)
            }
            // few corners, sides in several pieces
            5 => {
                let n = self.i(3, 5);
                let q: Vec<[f64; 2]> = (0..n)
                    .map(|i| {
                        let a = a0 + TAU * (i as f64 + self.f(-0.25, 0.25)) / n as f64;
                        [c[0] + r * a.cos(), c[1] + r * a.sin()]
                    })
                    .collect();
                let mut v = Vec::new();
                for i in 0..n {
                    let (a, b) = (q[i], q[(i + 1) % n]);
                    let k = *self.pick(&[1, 1, 2, 3, 4, 7]);
                    for j in 0..k {
                        let t = j as f64 / k as f64;
                        v.push([a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t]);
                    }
                }
                let j = self.n(v.len() as u64) as usize;
                v.rotate_left(j);
                poly2(&v)
            }
            // star with curved edges
            _ => {
                let n = self.i(3, 8);
                let jag = self.f(0.0, 0.4);
                let v: Vec<[f64; 2]> = (0..n)
                    .map(|i| {
                        let a = a0 + TAU * (i as f64 + self.f(-0.2, 0.2)) / n as f64;
                        let q = r * (1.0 - jag * self.f(0.0, 1.0));
                        [c[0] + q * a.cos(), c[1] + q * a.sin()]
                    })
                    .collect();
                (0..n)
                    .map(|i| {
                        let (a, b) = (v[i], v[(i + 1) % n]);
                        let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
                        match self.n(4) {
                            0 => Piece::Line { a, b },
                            1 => {
                                let k = self.f(-0.25, 0.25);
                                Piece::Bez { p: vec![a, [a[0] + dx / 2.0 + dy * k, a[1] + dy / 2.0 - dx * k], b] }
                            }
                            2 => {
                                let (k, l) = (self.f(-0.2, 0.2), self.f(-0.2, 0.2));
                                Piece::Bez {
                                    p: vec![
                                        a,
                                        [a[0] + dx / 3.0 + dy * k, a[1] + dy / 3.0 - dx * k],
                                        [a[0] + dx * 2.0 / 3.0 + dy * l, a[1] + dy * 2.0 / 3.0 - dx * l],
                                        b,
                                    ],
                                }
                            }
                            _ => {
                                let m = self.i(1, 3);
                                let mut p = vec![a];
                                for j in 1..=m {
                                    let t = j as f64 / (m + 1) as f64;
                                    let k = self.f(-0.15, 0.15);
                                    p.push([a[0] + dx * t + dy * k, a[1] + dy * t - dx * k]);
                                }
                                p.push(b);
                                Piece::Poly { p }
                            }
                        }
                    })
                    .collect()
            }
        }
    }

    /// piece in a plane to segment
    pub fn lift(&mut self, p: &Piece, o: Vec3, u: Vec3, v: Vec3, tol: f64) -> SegS {
        let m = |q: [f64; 2]| a3(o + u * q[0] + v * q[1]);
        let rev = self.p(0.3);
        match p {
            Piece::Line { a, b } => {
                if self.p(0.15) {
                    return SegS { c: CurveS::Poly { v: vec![m(*a), m(*b)] }, r: (0.0, 1.0), tol };
                }
                let (s, e) = (v3(m(*a)), v3(m(*b)));
                let len = (e - s).length();
                let d = if rev { (s - e) / len } else { (e - s) / len };
                let back = if self.p(0.5) { self.f(-2.0, 2.0) } else { 0.0 };
                let org = s - d * back;
                SegS { c: CurveS::Line { o: a3(org), d: a3(d) }, r: (back, if rev { back - len } else { back + len }), tol }
            }
            Piece::Arc { c, r, a, b } => {
                let n = u.cross(v);
                let (n, a, b) = if rev { (-n, -a, -b) } else { (n, *a, *b) };
                SegS { c: CurveS::Circle { c: m(*c), r: *r, axis: a3(n), refd: a3(u) }, r: (a, b), tol }
            }
            Piece::Bez { p } => {
                let mut q: Vec<P3> = p.iter().map(|p| m(*p)).collect();
                if rev {
                    q.reverse();
                }
                let r = if rev { (1.0, 0.0) } else { (0.0, 1.0) };
                if self.p(0.3) {
                    let d = q.len() - 1;
                    let mut k = vec![0.0; d + 1];
                    k.extend(vec![1.0; d + 1]);
                    return SegS { c: CurveS::BSp { p: q, k, deg: d as u8 }, r, tol };
                }
                SegS { c: CurveS::Bez { p: q }, r, tol }
            }
            Piece::Poly { p } => {
                let mut q: Vec<P3> = p.iter().map(|p| m(*p)).collect();
                let r = if rev { (1.0, 0.0) } else { (0.0, 1.0) };
                if rev {
                    q.reverse();
                }
                SegS { c: CurveS::Poly { v: q }, r, tol }
            }
        }
    }

    /// A small shape inside the unit square around `c`, on a lattice, counter-clockwise.
    fn lattice_shape(&mut self, c: [f64; 2], kind: u64) -> Vec<Piece> {
        let v: &[[i32; 2]] = match kind {
            // square, bar, post
            0 => &[[-1, -1], [1, -1], [1, 1], [-1, 1]],
            1 => &[[-3, -1], [3, -1], [3, 1], [-3, 1]],
            2 => &[[-1, -3], [1, -3], [1, 3], [-1, 3]],
            // L, T, cross, U
            3 => &[[-2, -2], [2, -2], [2, 0], [0, 0], [0, 2], [-2, 2]],
            4 => &[[-2, 1], [-1, 1], [-1, -2], [1, -2], [1, 1], [2, 1], [2, 2], [-2, 2]],
            5 => &[[-1, -2], [1, -2], [1, -1], [2, -1], [2, 1], [1, 1], [1, 2], [-1, 2], [-1, 1], [-2, 1], [-2, -1], [-1, -1]],
            6 => &[[-2, -2], [2, -2], [2, 2], [1, 2], [1, 0], [-1, 0], [-1, 2], [-2, 2]],
            // diamond, triangles
            7 => &[[0, -2], [2, 0], [0, 2], [-2, 0]],
            8 => &[[-2, -2], [2, -2], [2, 2]],
            9 => &[[-2, -1], [2, 0], [-2, 1]],
            // square with a corner on every side
            10 => &[[-2, -2], [0, -2], [2, -2], [2, 0], [2, 2], [0, 2], [-2, 2], [-2, 0]],
            _ => {
                let r = *self.pick(&[0.5, 0.25, 0.375]);
                let k = *self.pick(&[2usize, 4]);
                let at = |i: usize| TAU * i as f64 / k as f64;
                return (0..k).map(|i| Piece::Arc { c, r, a: at(i), b: at(i + 1) }).collect();
            }
        };
        let mut v: Vec<[f64; 2]> = v.iter().map(|p| [c[0] + p[0] as f64 / 4.0, c[1] + p[1] as f64 / 4.0]).collect();
        let j = self.n(v.len() as u64) as usize;
        v.rotate_left(j);
        poly2(&v)
    }

    /// A plate with holes in rows and columns: corners that share their coordinates, sides on one line.
    fn plate(&mut self, holes: bool) -> Vec<Vec<Piece>> {
        let (w, h) = (self.i(2, 4) as i32, self.i(2, 4) as i32);
        // cells of 2 x 2, the first and the last row and column form the outline
        let mut v: Vec<[i32; 2]> = Vec::new();
        let steps = self.p(0.5);
        let mut side = |g: &mut G, n: i32, at: &dyn Fn(i32, i32) -> [i32; 2]| {
            v.push(at(0, 0));
            for i in 0..n {
                match if steps { g.n(5) } else { 4 } {
                    // a tooth, a slot, a corner on the side
                    0 => v.extend([at(2 * i + 1, 0), at(2 * i + 1, -1), at(2 * i + 2, -1), at(2 * i + 2, 0)]),
                    1 => v.extend([at(2 * i + 1, 0), at(2 * i + 1, 1), at(2 * i + 2, 1), at(2 * i + 2, 0)]),
                    2 => v.push(at(2 * i + 1, 0)),
                    _ => {}
                }
            }
        };
        side(self, w, &|t, d| [t, d - 2]);
        side(self, h, &|t, d| [2 * w + 2 - d, t]);
        side(self, w, &|t, d| [2 * w - t, 2 * h + 2 - d]);
        side(self, h, &|t, d| [d - 2, 2 * h - t]);
        v.dedup();
        let mut v: Vec<[f64; 2]> = v.iter().map(|p| [p[0] as f64, p[1] as f64]).collect();
        let j = self.n(v.len() as u64) as usize;
        v.rotate_left(j);
        let mut b = vec![poly2(&v)];
        if holes {
            let (all, one) = (self.p(0.5), self.n(12));
            for i in 0..w {
                for j in 0..h {
                    if all || self.p(0.4) {
                        let kind = if self.p(0.6) { one } else { self.n(12) };
                        let shift = *self.pick(&[0.0, 0.0, 0.0, 0.25]);
                        let c = [2.0 * i as f64 + 1.0 + shift, 2.0 * j as f64 + 1.0];
                        b.push(self.lattice_shape(c, kind).iter().rev().map(|p| p.rev()).collect());
                    }
                }
            }
            let n = b.len();
            for i in 1..n {
                let j = self.i(i, n - 1);
                b.swap(i, j);
            }
        }
        b
    }

    /// Plane face: surface and bounds. `holes`: 0 none, 1 maybe
    pub fn planar(&mut self, level: u64, holes: bool) -> (SurfS, Vec<Vec<SegS>>) {
        loop {
            let s = self.plane();
            if self.p(0.2) {
                let s = match s {
                    SurfS::Plane { o, .. } if self.p(0.6) => {
                        let (n, u) = *self.pick(&[(Vec3::Z, Vec3::X), (Vec3::Y, Vec3::Z), (-Vec3::Z, Vec3::Y), (-Vec3::X, -Vec3::Y)]);
                        SurfS::Plane { o: o.map(f64::round), n: a3(n), u: a3(u) }
                    }
                    s => s,
                };
                let (o, _n, u, v) = topo::plane_frame(&s).unwrap();
                let tol = *self.pick(&[0.01, 0.02]);
                let b: Vec<Vec<SegS>> =
                    self.plate(holes).iter().map(|l| l.iter().map(|p| self.lift(p, o, u, v, tol)).collect()).collect();
                if b.len() > holes as usize && topo::planar_pre(&s, &b) {
                    return (s, b);
                }
                continue;
            }
            let (o, _n, u, v) = topo::plane_frame(&s).unwrap();
            let tol = if level == 0 { 0.05 } else { *self.pick(&[0.01, 0.05, 0.1, 0.003]) };
            let size = *self.pick(&[10.0, 10.0, 4.0, 30.0]);
            let c = [self.f(-5.0, 5.0), self.f(-5.0, 5.0)];
            let kind = self.n(6);
            let outer = self.loop2(c, size, kind);
            let mut b = vec![outer.iter().map(|p| self.lift(p, o, u, v, tol)).collect::<Vec<_>>()];
            let mut all2 = vec![outer];
            if holes {
                let want = *self.pick(&[1, 1, 2, 3, 5]);
                for _ in 0..12 {
                    if b.len() > want {
                        break;
                    }
                    let hc = [c[0] + self.f(-0.7, 0.7) * size, c[1] + self.f(-0.7, 0.7) * size];
                    let kind = *self.pick(&[0, 0, 1, 1, 2, 3, 4, 5]);
                    let hr = size * self.f(0.06, 0.4);
                    let l2: Vec<Piece> = self.loop2(hc, hr, kind).iter().rev().map(|p| p.rev()).collect();
                    b.push(l2.iter().map(|p| self.lift(p, o, u, v, tol)).collect());
                    all2.push(l2);
                    if !topo::planar_pre(&s, &b) {
                        b.pop();
                        all2.pop();
                    }
                }
                if b.len() < 2 {
                    continue;
                }
            }
            if topo::planar_pre(&s, &b) {
                return (s, b);
            }
        }
    }

    /// Cylinder face. Parameter plane: x = angle * radius, y = height.
    pub fn cylindrical(&mut self, holes: bool) -> (SurfS, Vec<Vec<SegS>>) {
        loop {
            let s = self.cyl();
            let SurfS::Cyl { r, .. } = &s else { unreachable!() };
            let r = *r;
            let tol = *self.pick(&[0.01, 0.05, 0.02]);
            let w = self.f(0.3, 4.5).min(5.6);
            let a0 = self.f(0.0, TAU);
            let h = r * self.f(0.4, 2.5);
            let z0 = match self.n(3) {
                0 => 0.0,
                1 => self.f(-h, 0.0),
                _ => self.f(-30.0, 30.0),
            };
            // (height, angle)
            let at = |x: f64, y: f64| [z0 + y * h, a0 + x * w];
            let mk = |a: [f64; 2], b: [f64; 2]| SegS { c: CurveS::OnSurf { s: Box::new(s.clone()), a, b }, r: (0.0, 1.0), tol };
            let mut outer: Vec<SegS> = Vec::new();
            let SurfS::Cyl { o, axis, refd, .. } = s.clone() else { unreachable!() };
            match self.n(3) {
                0 => {
                    // rectangle: arcs and lines of the library
                    let p = [at(0.0, 0.0), at(1.0, 0.0), at(1.0, 1.0), at(0.0, 1.0)];
                    for i in 0..4 {
                        let (a, b) = (p[i], p[(i + 1) % 4]);
                        if i % 2 == 0 {
                            let c = a3(v3(o) + v3(axis) * a[0]);
                            outer.push(SegS { c: CurveS::Circle { c, r, axis, refd }, r: (a[1], b[1]), tol });
                        } else {
                            let s0 = eval_surf(&s, a[0], a[1]);
                            let s1 = eval_surf(&s, b[0], b[1]);
                            let l = (s1 - s0).length();
                            outer.push(SegS { c: CurveS::Line { o: a3(s0), d: a3((s1 - s0) / l) }, r: (0.0, l), tol });
                        }
                    }
                }
                1 => {
                    let n = self.i(3, 9);
                    let b0 = self.f(0.0, TAU);
                    let p: Vec<[f64; 2]> = (0..n)
                        .map(|i| {
                            let t = b0 + TAU * (i as f64 + self.f(-0.2, 0.2)) / n as f64;
                            let q = self.f(0.6, 1.0) * 0.5;
                            at(0.5 + q * t.cos(), 0.5 + q * t.sin())
                        })
                        .collect();
                    for i in 0..n {
                        outer.push(mk(p[i], p[(i + 1) % n]));
                    }
                }
                _ => {
                    // notched top
                    let mut p = vec![at(0.0, 0.0), at(1.0, 0.0), at(1.0, 1.0)];
                    let k = self.i(1, 2);
                    for i in 0..k {
                        let d = 1.0 - self.f(0.2, 0.6);
                        p.push(at(1.0 - (i as f64 + 0.3) / k as f64, 1.0));
                        p.push(at(1.0 - (i as f64 + 0.35) / k as f64, d));
                        p.push(at(1.0 - (i as f64 + 0.65) / k as f64, d));
                        p.push(at(1.0 - (i as f64 + 0.7) / k as f64, 1.0));
                    }
                    p.push(at(0.0, 1.0));
                    for i in 0..p.len() {
                        outer.push(mk(p[i], p[(i + 1) % p.len()]));
                    }
                }
            }
            let mut b = vec![outer];
            if holes {
                let want = *self.pick(&[1, 1, 2, 3]);
                for _ in 0..10 {
                    if b.len() > want {
                        break;
                    }
                    let c = [self.f(0.15, 0.85), self.f(0.15, 0.85)];
                    let q = self.f(0.05, 0.25);
                    let n = self.i(3, 7);
                    let b0 = self.f(0.0, TAU);
                    // clockwise in (angle, height)
                    let p: Vec<[f64; 2]> = (0..n)
                        .map(|i| {
                            let t = b0 - TAU * i as f64 / n as f64;
                            at(c[0] + q * t.cos(), c[1] + q * t.sin())
                        })
                        .collect();
                    b.push((0..n).map(|i| mk(p[i], p[(i + 1) % n])).collect());
                    if !topo::curved_pre(&s, &b) {
                        b.pop();
                    }
                }
                if b.len() < 2 {
                    continue;
                }
            }
            if self.p(0.5) {
                b = reverse_bounds(&b);
            }
            if topo::curved_pre(&s, &b) {
                return (s, b);
            }
        }
    }

    /// B-spline face.
    pub fn splined(&mut self, holes: bool) -> (SurfS, Vec<Vec<SegS>>) {
        loop {
            let s = self.sheet();
            let SurfS::BSp { ku, kv, .. } = &s else { unreachable!() };
            let (u0, u1) = (ku[0], ku[ku.len() - 1]);
            let (v0, v1) = (kv[0], kv[kv.len() - 1]);
            let tol = *self.pick(&[0.05, 0.02, 0.1, 0.01]);
            let at = |x: f64, y: f64| [u0 + (u1 - u0) * x, v0 + (v1 - v0) * y];
            let mk = |a: [f64; 2], b: [f64; 2]| SegS { c: CurveS::OnSurf { s: Box::new(s.clone()), a, b }, r: (0.0, 1.0), tol };
            let full = self.n(3) == 0;
            let outer: Vec<[f64; 2]> = if full {
                vec![at(0.0, 0.0), at(1.0, 0.0), at(1.0, 1.0), at(0.0, 1.0)]
            } else {
                let n = self.i(3, 9);
                let b0 = self.f(0.0, TAU);
                (0..n)
                    .map(|i| {
                        let t = b0 + TAU * (i as f64 + self.f(-0.2, 0.2)) / n as f64;
                        let q = self.f(0.6, 1.0) * 0.47;
                        at(0.5 + q * t.cos(), 0.5 + q * t.sin())
                    })
                    .collect()
            };
            let n = outer.len();
            let mut b = vec![(0..n).map(|i| mk(outer[i], outer[(i + 1) % n])).collect::<Vec<_>>()];
            if holes {
                let want = *self.pick(&[1, 1, 2, 3]);
                for _ in 0..10 {
                    if b.len() > want {
                        break;
                    }
                    let c = [self.f(0.2, 0.8), self.f(0.2, 0.8)];
                    let q = self.f(0.04, 0.2);
                    if self.p(0.4) && (u1 - u0) == (v1 - v0) {
                        let r = q * (u1 - u0);
                        let cc = at(c[0], c[1]);
                        let k = self.i(2, 3);
                        b.push(
                            (0..k)
                                .map(|i| SegS {
                                    c: CurveS::OnSurfArc { s: Box::new(s.clone()), c: cc, r },
                                    r: (-TAU * i as f64 / k as f64, -TAU * (i + 1) as f64 / k as f64),
                                    tol,
                                })
                                .collect(),
                        );
                    } else {
                        let n = self.i(3, 7);
                        let b0 = self.f(0.0, TAU);
                        let p: Vec<[f64; 2]> = (0..n)
                            .map(|i| {
                                let t = b0 - TAU * i as f64 / n as f64;
                                at(c[0] + q * t.cos(), c[1] + q * t.sin())
                            })
                            .collect();
                        b.push((0..n).map(|i| mk(p[i], p[(i + 1) % n])).collect());
                    }
                    if !topo::curved_pre(&s, &b) {
                        b.pop();
                    }
                }
                if b.len() < 2 {
                    continue;
                }
            }
            if self.p(0.5) {
                b = reverse_bounds(&b);
            }
            if topo::curved_pre(&s, &b) {
                return (s, b);
            }
        }
    }

    /// A closed loop in space for polygon construction.
    pub fn space_loop(&mut self) -> Vec<SegS> {
        let mut l = match self.n(8) {
            0 => return self.touching_loop(),
            _ => self.plain_loop(),
        };
        // some corners cut short by tiny edges
        if self.p(0.3) {
            for _ in 0..self.i(1, 3) {
                let i = self.n(l.len() as u64) as usize;
                let at = seg_at(&l[i], 0.0);
                let d = self.unit();
                let d = d * 10f64.powf(self.f(-7.0, -1.0));
                // out and back along a spike
                let tol = l[i].tol;
                let k = self.i(1, 2);
                let mid = at + d;
                let mut v = vec![at, mid];
                if k == 2 {
                    v.push(at + self.unit() * d.length());
                }
                v.push(at);
                for w in v.windows(2).rev() {
                    let len = (w[1] - w[0]).length();
                    if len > 1e-9 {
                        let c = CurveS::Line { o: a3(w[0]), d: a3((w[1] - w[0]) / len) };
                        l.insert(i, SegS { c, r: (0.0, len), tol });
                    }
                }
            }
        }
        l
    }
    /// Outlines joined at a corner, and rings closed by a seam.
    fn touching_loop(&mut self) -> Vec<SegS> {
        let (o, (_, u)) = (v3(self.pos(10.0)), self.frame());
        let w = self.frame().0;
        let w = (w - u * w.dot(u)).normalize();
        let tol = self.tol();
        let mut v: Vec<[f64; 2]> = Vec::new();
        let line = |a: [f64; 2], b: [f64; 2]| Piece::Line { a, b };
        let mut p: Vec<Piece> = Vec::new();
        match self.n(4) {
            // petals at the origin
            0 => {
                let k = self.i(2, 4);
                for i in 0..k {
                    let a = TAU * i as f64 / k as f64;
                    let (r, b) = (self.f(1.0, 6.0), a + TAU / k as f64 * self.f(0.3, 0.9));
                    v.extend([[0.0, 0.0], [r * a.cos(), r * a.sin()], [r * b.cos(), r * b.sin()]]);
                }
            }
            // square ring with a seam
            1 => {
                let (a, b) = (self.f(0.5, 2.0), self.f(3.0, 6.0));
                v.extend([[-b, -b], [b, -b], [b, b], [-b, b], [-b, -b], [-a, -a], [-a, a], [a, a], [a, -a], [-a, -a]]);
            }
            // full circles with a seam
            2 => {
                let (a, b) = (self.f(0.5, 2.0), self.f(3.0, 6.0));
                let s = self.f(0.0, TAU);
                let q = |r: f64| [r * s.cos(), r * s.sin()];
                p.push(Piece::Arc { c: [0.0, 0.0], r: b, a: s, b: s + TAU });
                p.push(line(q(b), q(a)));
                p.push(Piece::Arc { c: [0.0, 0.0], r: a, a: s + TAU, b: s });
                p.push(line(q(a), q(b)));
            }
            // there and back
            _ => {
                let n = self.i(2, 5);
                let q: Vec<[f64; 2]> = (0..n).map(|i| [2.0 * i as f64 + self.f(0.0, 1.0), self.f(-3.0, 3.0)]).collect();
                v.extend(q.iter());
                v.extend(q[1..n - 1].iter().rev());
            }
        }
        if !v.is_empty() {
            p = poly2(&v);
        }
        let l: Vec<SegS> = p.iter().map(|p| self.lift(p, o, u, w, tol)).collect();
        let k = self.n(l.len() as u64) as usize;
        l[k..].iter().chain(&l[..k]).cloned().collect()
    }
    fn plain_loop(&mut self) -> Vec<SegS> {
        match self.n(3) {
            0 => {
                let (_, mut b) = self.planar(1, false);
                b.remove(0)
            }
            1 => {
                // freeform chain, closed
                let n = self.i(2, 6);
                let v: Vec<P3> = (0..n).map(|_| self.pos(10.0)).collect();
                let tol = self.tol();
                let mut l = Vec::new();
                for i in 0..n {
                    let (a, b) = (v3(v[i]), v3(v[(i + 1) % n]));
                    if (a - b).length() < 0.5 {
                        return self.plain_loop();
                    }
                    let mid = |g: &mut G, t: f64| a3(a + (b - a) * t + g.unit() * (b - a).length() * 0.3);
                    let c = match self.n(4) {
                        0 => CurveS::Poly { v: vec![a3(a), mid(self, 0.4), a3(b)] },
                        1 => CurveS::Bez { p: vec![a3(a), mid(self, 0.5), a3(b)] },
                        2 => CurveS::Bez { p: vec![a3(a), mid(self, 0.3), mid(self, 0.7), a3(b)] },
                        _ => {
                            let k = vec![0.0, 0.0, 0.0, 0.5, 1.0, 1.0, 1.0];
                            CurveS::BSp { p: vec![a3(a), mid(self, 0.3), mid(self, 0.7), a3(b)], k, deg: 2 }
                        }
                    };
                    let rev = self.p(0.3);
                    let s = SegS { c, r: (0.0, 1.0), tol };
                    l.push(if rev { flip_curve(&s) } else { s });
                }
                l
            }
            _ => {
                let (_, mut b) = if self.p(0.5) { self.cylindrical(false) } else { self.splined(false) };
                b.remove(0)
            }
        }
    }
}

/// The same segment from a curve running the other way.
pub fn flip_curve(s: &SegS) -> SegS {
    let c = match &s.c {
        CurveS::Poly { v } => CurveS::Poly { v: v.iter().rev().cloned().collect() },
        CurveS::Bez { p } => CurveS::Bez { p: p.iter().rev().cloned().collect() },
        CurveS::BSp { p, k, deg } => {
            let (a, b) = (k[0], k[k.len() - 1]);
            CurveS::BSp { p: p.iter().rev().cloned().collect(), k: k.iter().rev().map(|x| a + b - x).collect(), deg: *deg }
        }
        _ => return s.clone(),
    };
    SegS { c, r: (s.r.1, s.r.0), tol: s.tol }
}

pub fn reverse_bounds(b: &[Vec<SegS>]) -> Vec<Vec<SegS>> {
    b.iter().map(|l| l.iter().rev().map(|s| SegS { c: s.c.clone(), r: (s.r.1, s.r.0), tol: s.tol }).collect()).collect()
}

#[derive(Clone, Debug)]
pub enum Piece {
    Line { a: [f64; 2], b: [f64; 2] },
    Arc { c: [f64; 2], r: f64, a: f64, b: f64 },
    Bez { p: Vec<[f64; 2]> },
    Poly { p: Vec<[f64; 2]> },
}
impl Piece {
    pub fn rev(&self) -> Piece {
        match self {
            Piece::Line { a, b } => Piece::Line { a: *b, b: *a },
            Piece::Arc { c, r, a, b } => Piece::Arc { c: *c, r: *r, a: *b, b: *a },
            Piece::Bez { p } => Piece::Bez { p: p.iter().rev().cloned().collect() },
            Piece::Poly { p } => Piece::Poly { p: p.iter().rev().cloned().collect() },
        }
    }
}
fn poly2(v: &[[f64; 2]]) -> Vec<Piece> {
    (0..v.len()).map(|i| Piece::Line { a: v[i], b: v[(i + 1) % v.len()] }).collect()
}
