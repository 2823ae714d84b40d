//! STEP workload: writing AP214 files from a spec, and checking what the reader made of them.
use crate::geo::*;
use crate::scn::*;
use geom3d::curve::{Curve, CurveSegment};
use geom3d::surface::{Surface, TrimmedSurface};
use geom3d::{Model, Vec3};
use simos::world::splitmix;
use std::f64::consts::TAU;

type R = Result<(), String>;

fn real(x: f64) -> String {
    let s = format!("{:?}", x);
    if let Some(i) = s.find('e') {
        let (m, e) = s.split_at(i);
        let m = if m.contains('.') { m.to_string() } else { format!("{}.", m) };
        format!("{}E{}", m, &e[1..])
    } else {
        s
    }
}

/// trims give the point as well as the parameter
pub const TRIM_BOTH: u32 = 1;
/// trims give only the point
pub const TRIM_POINT: u32 = 2;
/// the first bound of a face is a FACE_OUTER_BOUND
pub const OUTER: u32 = 4;
/// edges share vertices; loops use edges backwards
pub const SHARE: u32 = 8;
/// vectors with a magnitude
pub const MAGNITUDE: u32 = 16;
/// directions that are not unit vectors
pub const LONG: u32 = 32;
/// reference directions that are not perpendicular to the axis
pub const OBLIQUE: u32 = 64;
/// directions that have their default values are left out
pub const OMIT: u32 = 128;
/// composite curve segments that use their curve backwards
pub const TURN: u32 = 512;
/// edges and bounds that are used against their direction
pub const BACK: u32 = 1024;
/// curves of a kind the reader does not know in between
pub const FOREIGN: u32 = 256;

struct W {
    forms: u32,
    /// writing the section of a surface of revolution, whose parameter is the section's
    section: bool,
    verts: Vec<(P3, u64)>,
    /// (order key, text with ids already assigned)
    lines: Vec<(u64, u64, String)>,
    next: u64,
    layout: u64,
    h: u64,
}

impl W {
    fn id(&mut self) -> u64 {
        self.h = splitmix(self.h);
        self.next += 1 + if self.layout % 3 == 1 { self.h % 7 } else { 0 };
        self.next
    }
    fn add(&mut self, body: String) -> u64 {
        let id = self.id();
        let n = self.lines.len() as u64;
        // the order of supporting entities in the file is free
        let key = if self.layout % 5 >= 3 { splitmix(self.layout ^ splitmix(n)) >> 1 } else { n };
        self.lines.push((key, id, body));
        id
    }
    fn pt(&mut self, p: P3) -> u64 {
        let t = format!("CARTESIAN_POINT('',({},{},{}))", real(p[0]), real(p[1]), real(p[2]));
        self.add(t)
    }
    fn has(&self, form: u32) -> bool {
        self.forms & form != 0
    }
    /// a number in 0..n that depends on the layout and the place
    fn pick(&mut self, n: u64) -> u64 {
        splitmix(self.layout ^ splitmix(self.lines.len() as u64 + 77)) % n
    }
    fn dir(&mut self, p: P3) -> u64 {
        let k = if self.has(LONG) { [1.0, 2.0, 0.5, 3.7, 10.0][self.pick(5) as usize] } else { 1.0 };
        let p = [p[0] * k, p[1] * k, p[2] * k];
        let t = format!("DIRECTION('',({},{},{}))", real(p[0]), real(p[1]), real(p[2]));
        self.add(t)
    }
    fn axis2(&mut self, o: P3, z: P3, x: P3) -> u64 {
        let plain = z == [0.0, 0.0, 1.0];
        let u = a3(v3(x).normalize());
        // the default reference direction is the projection of x (or of y)
        let from = if z == [1.0, 0.0, 0.0] { Vec3::Y } else { Vec3::X };
        let usual = a3((from - v3(z) * v3(z).dot(from)).normalize());
        let skip_x = self.has(OMIT) && u == usual;
        let skip_z = self.has(OMIT) && plain;
        let x = if self.has(OBLIQUE) { a3(v3(x) + v3(z) * [0.3, -0.7, 1.0][self.pick(3) as usize]) } else { x };
        let o = self.pt(o);
        let z = if skip_z { "$".to_string() } else { format!("#{}", self.dir(z)) };
        let x = if skip_x { "$".to_string() } else { format!("#{}", self.dir(x)) };
        self.add(format!("AXIS2_PLACEMENT_3D('',#{},{},{})", o, z, x))
    }
    fn curve(&mut self, c: &StepCurve) -> u64 {
        match c {
            StepCurve::Line { o, d } => {
                let (o, d) = (self.pt(*o), self.dir(*d));
                let m = self.magnitude();
                let v = self.add(format!("VECTOR('',#{},{})", d, real(m)));
                self.add(format!("LINE('',#{},#{})", o, v))
            }
            StepCurve::Circle { c, axis, refd, r } => {
                let a = self.axis2(*c, *axis, *refd);
                self.add(format!("CIRCLE('',#{},{})", a, real(*r)))
            }
            StepCurve::Poly { v } => {
                let p = self.pts(v);
                self.add(format!("POLYLINE('',({}))", p))
            }
            StepCurve::BSp { p, k, m, deg } => {
                let p = self.pts(p);
                self.add(format!(
                    "B_SPLINE_CURVE_WITH_KNOTS('',{},({}),.UNSPECIFIED.,.F.,.F.,({}),({}),.UNSPECIFIED.)",
                    deg,
                    p,
                    ints(m),
                    reals(k)
                ))
            }
        }
    }
    fn magnitude(&self) -> f64 {
        if self.has(MAGNITUDE) && !self.section {
            [2.0, 0.5, 25.0][(self.layout % 3) as usize]
        } else {
            1.0
        }
    }
    fn vertex(&mut self, p: P3) -> u64 {
        if self.has(SHARE) {
            if let Some(v) = self.verts.iter().find(|v| v.0 == p) {
                return v.1;
            }
        }
        let i = self.pt(p);
        let v = self.add(format!("VERTEX_POINT('',#{})", i));
        self.verts.push((p, v));
        v
    }
    fn trim(&mut self, s: &StepSeg, u: f64) -> String {
        let at = seg_at(&SegS { c: curve_spec(&s.c), r: (u, u), tol: 0.01 }, 0.0);
        let w = if matches!(s.c, StepCurve::Line { .. }) { u / self.magnitude() } else { u };
        let v = format!("PARAMETER_VALUE({})", real(w));
        if self.has(TRIM_POINT) && !matches!(s.c, StepCurve::Poly { .. }) {
            format!("#{}", self.pt(a3(at)))
        } else if self.has(TRIM_BOTH) {
            let p = self.pt(a3(at));
            if self.pick(2) == 0 {
                format!("#{},{}", p, v)
            } else {
                format!("{},#{}", v, p)
            }
        } else {
            v
        }
    }
    fn pts(&mut self, v: &[P3]) -> String {
        v.iter().map(|p| format!("#{}", self.pt(*p))).collect::<Vec<_>>().join(",")
    }
    fn rows(&mut self, p: &[Vec<P3>]) -> String {
        p.iter().map(|r| format!("({})", self.pts(r))).collect::<Vec<_>>().join(",")
    }
    fn surf(&mut self, s: &StepSurf) -> u64 {
        match s {
            StepSurf::Plane { o, z, x } => {
                let a = self.axis2(*o, *z, *x);
                self.add(format!("PLANE('',#{})", a))
            }
            StepSurf::Cyl { o, z, x, r } => {
                let a = self.axis2(*o, *z, *x);
                self.add(format!("CYLINDRICAL_SURFACE('',#{},{})", a, real(*r)))
            }
            StepSurf::Unknown { o, z, x, r } => {
                let a = self.axis2(*o, *z, *x);
                self.add(format!("CONICAL_SURFACE('',#{},{},0.5)", a, real(*r)))
            }
            StepSurf::BSp { p, ku, mu, kv, mv, deg } => {
                let rows = self.rows(p);
                self.add(format!(
                    "B_SPLINE_SURFACE_WITH_KNOTS('',{},{},({}),.UNSPECIFIED.,.F.,.F.,.F.,({}),({}),({}),({}),.UNSPECIFIED.)",
                    deg.0,
                    deg.1,
                    rows,
                    ints(mu),
                    ints(mv),
                    reals(ku),
                    reals(kv)
                ))
            }
            StepSurf::Bez { p } => {
                let rows = self.rows(p);
                self.add(format!("BEZIER_SURFACE('',{},{},({}),.UNSPECIFIED.,.F.,.F.,.F.)", p.len() - 1, p[0].len() - 1, rows))
            }
            StepSurf::Uni { p, deg } => {
                let rows = self.rows(p);
                self.add(format!("B_SPLINE_SURFACE('',{},{},({}),.UNSPECIFIED.,.F.,.F.,.F.)", deg.0, deg.1, rows))
            }
            StepSurf::RUni { p, w, deg } => {
                let rows = self.rows(p);
                self.add(format!(
                    "RATIONAL_B_SPLINE_SURFACE('',{},{},({}),.UNSPECIFIED.,.F.,.F.,.F.,({}))",
                    deg.0,
                    deg.1,
                    rows,
                    w.iter().map(|r| format!("({})", reals(r))).collect::<Vec<_>>().join(",")
                ))
            }
            StepSurf::RBSp { p, w, ku, mu, kv, mv, deg } => {
                let rows = self.rows(p);
                self.add(format!(
                    "(BOUNDED_SURFACE()B_SPLINE_SURFACE({},{},({}),.UNSPECIFIED.,.F.,.F.,.F.)B_SPLINE_SURFACE_WITH_KNOTS(({}),({}),({}),({}),.UNSPECIFIED.)GEOMETRIC_REPRESENTATION_ITEM()RATIONAL_B_SPLINE_SURFACE(({}))REPRESENTATION_ITEM('')SURFACE())",
                    deg.0,
                    deg.1,
                    rows,
                    ints(mu),
                    ints(mv),
                    reals(ku),
                    reals(kv),
                    w.iter().map(|r| format!("({})", reals(r))).collect::<Vec<_>>().join(",")
                ))
            }
            StepSurf::Rev { o, z, c } => {
                self.section = true;
                let c = self.curve(c);
                self.section = false;
                let (o, z) = (self.pt(*o), self.dir(*z));
                let a = self.add(format!("AXIS1_PLACEMENT('',#{},#{})", o, z));
                self.add(format!("SURFACE_OF_REVOLUTION('',#{},#{})", c, a))
            }
        }
    }
}
fn ints(v: &[usize]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn reals(v: &[f64]) -> String {
    v.iter().map(|x| real(*x)).collect::<Vec<_>>().join(",")
}

/// The whole text (uncut).
pub fn text(m: &StepS) -> String {
    let mut w = W { lines: vec![], next: 0, layout: m.layout, h: m.layout, forms: m.forms, section: false, verts: vec![] };
    let mut roots: Vec<(u64, String)> = Vec::new();
    let mut croots: Vec<(u64, String)> = Vec::new();
    let tf = |b: bool| if b { ".T." } else { ".F." };
    for c in &m.curves {
        let mut segs = Vec::new();
        for s in c {
            let b = w.curve(&s.c);
            let turn = w.has(TURN) && w.pick(2) == 0;
            let (t1, t2) = (w.trim(s, s.r.0), w.trim(s, s.r.1));
            let (t1, t2) = if turn { (t2, t1) } else { (t1, t2) };
            let sense = if s.sense != turn { ".T." } else { ".F." };
            let same = if turn { ".F." } else { ".T." };
            let master = if w.has(TRIM_POINT) { ".CARTESIAN." } else { ".PARAMETER." };
            if w.has(FOREIGN) && w.pick(2) == 0 {
                let a = w.axis2([0.0; 3], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]);
                let e = w.add(format!("ELLIPSE('',#{},3.,2.)", a));
                let t = w.add(format!("TRIMMED_CURVE('',#{},(PARAMETER_VALUE(0.5)),(PARAMETER_VALUE(2.)),.T.,.PARAMETER.)", e));
                segs.push(format!("#{}", w.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,.T.,#{})", t))));
            }
            let t = w.add(format!("TRIMMED_CURVE('',#{},({}),({}),{},{})", b, t1, t2, sense, master));
            segs.push(format!("#{}", w.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,{},#{})", same, t))));
        }
        let id = w.id();
        croots.push((id, format!("COMPOSITE_CURVE('',({}),.F.)", segs.join(","))));
    }
    for f in &m.faces {
        let s = w.surf(&f.s);
        let mut bs = Vec::new();
        for l in &f.b {
            let mut es = Vec::new();
            let back = w.has(BACK) && w.pick(2) == 0;
            for e in l {
                let c = w.curve(&e.c);
                let (a, b) = (w.vertex(e.a), w.vertex(e.b));
                // an edge that runs the other way is used backwards
                let turn = w.has(BACK) && w.pick(2) == 0;
                let (a, b) = if turn { (b, a) } else { (a, b) };
                let ec = w.add(format!("EDGE_CURVE('',#{},#{},#{},{})", a, b, c, tf(e.same != turn)));
                es.push(format!("#{}", w.add(format!("ORIENTED_EDGE('',*,*,#{},{})", ec, tf(turn == back)))));
            }
            // a loop that runs the other way bounds the face backwards
            if back {
                es.reverse();
            }
            let lp = w.add(format!("EDGE_LOOP('',({}))", es.join(",")));
            let kind = if w.has(OUTER) && bs.is_empty() { "FACE_OUTER_BOUND" } else { "FACE_BOUND" };
            bs.push(format!("#{}", w.add(format!("{}('',#{},{})", kind, lp, tf(!back)))));
        }
        let id = w.id();
        roots.push((id, format!("ADVANCED_FACE('',({}),#{},{})", bs.join(","), s, if f.same { ".T." } else { ".F." })));
    }
    w.lines.sort();
    let sup: Vec<(u64, String)> = w.lines.into_iter().map(|l| (l.1, l.2)).collect();
    // roots come in their own order, before, after or among the rest
    let mut all: Vec<(u64, String)> = Vec::new();
    let mut r: Vec<(u64, String)> =
        if m.layout % 2 == 0 { croots.into_iter().chain(roots).collect() } else { roots.into_iter().chain(croots).collect() };
    match m.layout % 4 {
        0 | 1 => {
            all.extend(sup);
            all.extend(r);
        }
        2 => {
            all.append(&mut r);
            all.extend(sup);
        }
        _ => {
            let every = (sup.len() / (r.len() + 1)).max(1);
            let mut it = r.into_iter();
            for (i, s) in sup.into_iter().enumerate() {
                all.push(s);
                if (i + 1) % every == 0 {
                    all.extend(it.next());
                }
            }
            all.extend(it);
        }
    }
    let nl = if m.layout % 7 == 5 { "\r\n" } else { "\n" };
    let sp = if m.layout % 11 >= 6 { " " } else { "" };
    let mut t = format!("ISO-10303-21;{nl}HEADER;{nl}");
    t.push_str(&format!("FILE_DESCRIPTION((''),'2;1');{nl}"));
    t.push_str(&format!("FILE_NAME('model','2020-01-01T00:00:00',(''),(''),'','','');{nl}"));
    t.push_str(&format!("FILE_SCHEMA(('AUTOMOTIVE_DESIGN'));{nl}ENDSEC;{nl}DATA;{nl}"));
    for (i, (id, b)) in all.iter().enumerate() {
        if m.layout % 13 == 4 && i % 5 == 2 {
            t.push_str(&format!("/* entity {} */{nl}", i));
        }
        t.push_str(&format!("#{}{sp}={sp}{};{nl}", id, b));
    }
    t.push_str(&format!("ENDSEC;{nl}END-ISO-10303-21;{nl}"));
    t
}

/// Where the end marker starts to be complete.
pub fn is_cut(m: &StepS) -> bool {
    let t = text(m);
    let end = t.rfind("END-ISO-10303-21;").unwrap() + "END-ISO-10303-21;".len();
    m.cut != 0 && cut_len(t.len(), m.cut) < end
}
fn cut_len(n: usize, cut: u32) -> usize {
    (n as u64 * cut.min(1_000_000) as u64 / 1_000_000) as usize
}

pub fn render(m: &StepS) -> Vec<u8> {
    let mut t = text(m).into_bytes();
    if m.cut != 0 {
        t.truncate(cut_len(t.len(), m.cut));
    }
    t
}

// ---------------------------------------------------------------- what was read

#[derive(Clone, Debug)]
pub struct SegVal {
    pub r: (f64, f64),
    pub pts: Vec<Vec3>,
}
#[derive(Clone, Debug)]
pub struct FaceVal {
    pub pts: Vec<Vec3>,
    pub loops: Vec<Vec<SegVal>>,
}
#[derive(Clone, Debug)]
pub struct ModelVal {
    pub curves: Vec<Vec<SegVal>>,
    pub faces: Vec<FaceVal>,
}
impl ModelVal {
    pub fn bits(&self, o: &mut Vec<u64>) {
        let seg = |s: &SegVal, o: &mut Vec<u64>| {
            o.extend([s.r.0.to_bits(), s.r.1.to_bits()]);
            for p in &s.pts {
                o.extend([p.x.to_bits(), p.y.to_bits(), p.z.to_bits()]);
            }
        };
        for c in &self.curves {
            o.push(c.len() as u64);
            c.iter().for_each(|s| seg(s, o));
        }
        for f in &self.faces {
            o.push(f.loops.len() as u64);
            for p in &f.pts {
                o.extend([p.x.to_bits(), p.y.to_bits(), p.z.to_bits()]);
            }
            // the bounds of a face are a set
            let mut ls: Vec<Vec<u64>> = f
                .loops
                .iter()
                .map(|l| {
                    let mut o = vec![l.len() as u64];
                    l.iter().for_each(|s| seg(s, &mut o));
                    o
                })
                .collect();
            ls.sort();
            ls.into_iter().for_each(|l| o.extend(l));
        }
    }
}

const TS: [f64; 5] = [0.0, 0.3, 0.5, 0.85, 1.0];

fn seg_val(s: &CurveSegment<Box<dyn Curve>>) -> SegVal {
    let (a, b) = s.parameter_range;
    SegVal { r: s.parameter_range, pts: TS.iter().map(|t| s.curve.get_point(if *t == 1.0 { b } else { a + (b - a) * t })).collect() }
}

fn sample_uv(s: &StepSurf) -> Vec<[f64; 2]> {
    let mut o = Vec::new();
    let (u, v) = match s {
        StepSurf::BSp { ku, kv, .. } | StepSurf::RBSp { ku, kv, .. } => ((ku[0], ku[ku.len() - 1]), (kv[0], kv[kv.len() - 1])),
        StepSurf::Bez { .. } | StepSurf::Uni { .. } | StepSurf::RUni { .. } => ((0.0, 1.0), (0.0, 1.0)),
        StepSurf::Rev { .. } => ((0.0, 1.0), (0.0, 5.0)),
        _ => ((-2.0, 3.0), (-1.0, 4.0)),
    };
    for a in [0.0, 0.21, 0.5, 0.77] {
        for b in [0.0, 0.37, 0.61, 0.9] {
            o.push([u.0 + (u.1 - u.0) * a, v.0 + (v.1 - v.0) * b]);
        }
    }
    o
}

fn supported(m: &StepS) -> Vec<&StepFace> {
    m.faces.iter().filter(|f| !matches!(f.s, StepSurf::Unknown { .. })).collect()
}

pub fn extract(m: &Model<TrimmedSurface<Box<dyn Surface>>>, spec: &StepS) -> ModelVal {
    let want = supported(spec);
    ModelVal {
        curves: m.curves.iter().map(|c| c.segments.iter().map(seg_val).collect()).collect(),
        faces: m
            .faces
            .iter()
            .enumerate()
            .map(|(i, f)| FaceVal {
                pts: want.get(i).map(|w| sample_uv(&w.s).iter().map(|p| f.surface.get_point(p[0], p[1])).collect()).unwrap_or_default(),
                loops: f.bounds.iter().map(|b| b.edges.iter().map(seg_val).collect()).collect(),
            })
            .collect(),
    }
}

fn expand(k: &[f64], m: &[usize]) -> Vec<f64> {
    k.iter().zip(m).flat_map(|(k, m)| vec![*k; *m]).collect()
}

fn uniform(n: usize, deg: u8) -> Vec<f64> {
    let d = deg as usize;
    let m = n - d;
    let mut k = vec![0.0; d + 1];
    k.extend((1..m).map(|i| i as f64 / m as f64));
    k.extend(vec![1.0; d + 1]);
    k
}
fn weighted(p: &[Vec<P3>], w: &[Vec<f64>]) -> Vec<Vec<P4>> {
    p.iter().zip(w).map(|(p, w)| p.iter().zip(w).map(|(p, w)| [p[0] * w, p[1] * w, p[2] * w, *w]).collect()).collect()
}

pub fn curve_spec(c: &StepCurve) -> CurveS {
    match c {
        StepCurve::Line { o, d } => CurveS::Line { o: *o, d: *d },
        StepCurve::Circle { c, axis, refd, r } => CurveS::Circle { c: *c, r: *r, axis: *axis, refd: a3(v3(*refd).normalize()) },
        StepCurve::Poly { v } => CurveS::Poly { v: v.clone() },
        StepCurve::BSp { p, k, m, deg } => CurveS::BSp { p: p.clone(), k: expand(k, m), deg: *deg },
    }
}

fn surf_spec(f: &StepFace) -> SurfS {
    match &f.s {
        StepSurf::Plane { o, z, x } => {
            let n = if f.same { v3(*z) } else { -v3(*z) };
            SurfS::Plane { o: *o, n: a3(n), u: *x }
        }
        StepSurf::Cyl { o, z, x, r } => SurfS::Cyl { o: *o, axis: *z, refd: a3(v3(*x).normalize()), r: *r },
        StepSurf::BSp { p, ku, mu, kv, mv, deg } => SurfS::BSp { p: p.clone(), ku: expand(ku, mu), kv: expand(kv, mv), deg: *deg },
        StepSurf::Bez { p } => SurfS::Bez { p: p.clone() },
        StepSurf::Uni { p, deg } => SurfS::BSp { p: p.clone(), ku: uniform(p.len(), deg.0), kv: uniform(p[0].len(), deg.1), deg: *deg },
        StepSurf::RUni { p, w, deg } => {
            SurfS::RBSp { p: weighted(p, w), ku: uniform(p.len(), deg.0), kv: uniform(p[0].len(), deg.1), deg: *deg }
        }
        StepSurf::RBSp { p, w, ku, mu, kv, mv, deg } => {
            SurfS::RBSp { p: weighted(p, w), ku: expand(ku, mu), kv: expand(kv, mv), deg: *deg }
        }
        StepSurf::Rev { o, z, c } => SurfS::Spin { o: *o, axis: *z, c: Box::new(curve_spec(c)) },
        StepSurf::Unknown { .. } => unreachable!(),
    }
}

fn near(a: Vec3, b: Vec3, tol: f64) -> bool {
    (a - b).length() <= tol * (1.0 + a.length().max(b.length()))
}

/// The directed parameter range of a circle: counter-clockwise when the senses agree.
fn arc(a: f64, b: f64, ccw: bool) -> (f64, f64) {
    if ccw && a >= b {
        (a, b + TAU)
    } else if !ccw && a <= b {
        (a + TAU, b)
    } else {
        (a, b)
    }
}

fn check_seg(got: &SegVal, want: &SegS, tol: f64) -> R {
    for (i, t) in TS.iter().enumerate() {
        let w = seg_at(want, *t);
        if !near(got.pts[i], w, tol) {
            return Err(format!("at {} of the way it is at {:?}, the file says {:?}", t, got.pts[i], w));
        }
    }
    Ok(())
}

/// Where a closed curve starts and ends, and its first and last parameter.
pub fn seam(c: &CurveS) -> Option<(P3, f64, f64)> {
    let (p, first, last) = match c {
        CurveS::BSp { p, k, .. } => (p, k[0], k[k.len() - 1]),
        CurveS::Poly { v } => (v, 0.0, 1.0),
        _ => return None,
    };
    (p.len() > 2 && p[0] == p[p.len() - 1]).then_some((p[0], first, last))
}

/// The segment an edge stands for.
fn edge_spec(e: &StepEdge) -> SegS {
    let c = curve_spec(&e.c);
    let find = |p: P3| -> f64 {
        match &c {
            CurveS::Line { o, d } => (v3(p) - v3(*o)).dot(v3(*d)) / v3(*d).length_squared(),
            CurveS::Circle { c, axis, refd, .. } => {
                let d = v3(p) - v3(*c);
                let y = v3(*axis).cross(v3(*refd));
                let a = d.dot(y).atan2(d.dot(v3(*refd)));
                if a < 0.0 {
                    a + TAU
                } else {
                    a
                }
            }
            CurveS::BSp { k, .. } => {
                let s = SegS { c: c.clone(), r: (k[0], k[k.len() - 1]), tol: 0.01 };
                let t = SegTab::new(&s).locate(v3(p), 1e-9).0;
                k[0] + (k[k.len() - 1] - k[0]) * t
            }
            c => {
                let s = SegS { c: c.clone(), r: (0.0, 1.0), tol: 0.01 };
                SegTab::new(&s).locate(v3(p), 1e-9).0
            }
        }
    };
    let (a, b) = (find(e.a), find(e.b));
    let r = match (&c, seam(&c)) {
        (CurveS::Circle { .. }, _) => arc(a, b, e.same),
        (_, Some((p, first, last))) => {
            let (first, last) = if e.same { (first, last) } else { (last, first) };
            (if e.a == p { first } else { a }, if e.b == p { last } else { b })
        }
        _ => (a, b),
    };
    SegS { c, r, tol: 0.01 }
}

pub fn check(got: &ModelVal, spec: &StepS) -> R {
    if got.curves.len() != spec.curves.len() {
        return Err(format!("{} curves read, the file has {}", got.curves.len(), spec.curves.len()));
    }
    for (i, (g, w)) in got.curves.iter().zip(&spec.curves).enumerate() {
        if g.len() != w.len() {
            return Err(format!("curve {}: {} segments read, the file has {}", i, g.len(), w.len()));
        }
        for (j, (g, w)) in g.iter().zip(w).enumerate() {
            let c = curve_spec(&w.c);
            let r = if matches!(c, CurveS::Circle { .. }) { arc(w.r.0, w.r.1, w.sense) } else { w.r };
            // splines are projected by iteration
            let tol = if spec.forms & TRIM_POINT != 0 && matches!(c, CurveS::BSp { .. }) { 2e-3 } else { 1e-9 };
            check_seg(g, &SegS { c, r, tol: 0.01 }, tol).map_err(|e| format!("curve {} segment {}: {}", i, j, e))?;
        }
    }
    let want = supported(spec);
    if got.faces.len() != want.len() {
        return Err(format!("{} faces read, the file has {}", got.faces.len(), want.len()));
    }
    for (i, (g, w)) in got.faces.iter().zip(&want).enumerate() {
        let s = surf_spec(w);
        for (p, uv) in g.pts.iter().zip(sample_uv(&w.s)) {
            let q = eval_surf(&s, uv[0], uv[1]);
            if !near(*p, q, 1e-9) {
                return Err(format!("face {}: surface point {:?} is {:?}, the file says {:?}", i, uv, p, q));
            }
        }
        if g.loops.len() != w.b.len() {
            return Err(format!("face {}: {} bounds read, the file has {}", i, g.loops.len(), w.b.len()));
        }
        // bounds are a set: match them up
        let mut free: Vec<usize> = (0..g.loops.len()).collect();
        for (j, l) in w.b.iter().enumerate() {
            let specs: Vec<SegS> = l.iter().map(edge_spec).collect();
            let mut why = String::new();
            let hit = free.iter().position(|&k| {
                let gl = &g.loops[k];
                if gl.len() != specs.len() {
                    why = format!("{} edges read, the file has {}", gl.len(), specs.len());
                    return false;
                }
                gl.iter().zip(&specs).zip(l).enumerate().all(|(x, ((g, s), e))| {
                    // splines are projected by iteration
                    let tol = if matches!(s.c, CurveS::BSp { .. }) { 2e-3 } else { 1e-6 };
                    let ends = near(g.pts[0], v3(e.a), tol) && near(g.pts[4], v3(e.b), tol);
                    match if ends { check_seg(g, s, tol) } else { Err("does not run between its vertices".into()) } {
                        Ok(()) => true,
                        Err(e) => {
                            why = format!("edge {}: {}", x, e);
                            false
                        }
                    }
                })
            });
            match hit {
                Some(h) => {
                    free.remove(h);
                }
                None => return Err(format!("face {}: bound {} is not there ({})", i, j, why)),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- legitimate models

fn c_ok(c: &StepCurve) -> bool {
    let u = |p: &P3| (v3(*p).length() - 1.0).abs() < 1e-6;
    crate::valid::curve(&curve_spec(c))
        && match c {
            StepCurve::Line { d, .. } => u(d),
            StepCurve::BSp { k, m, deg, .. } => k.len() == m.len() && k.len() >= 2 && *deg >= 2 && m.iter().all(|m| *m >= 1),
            _ => true,
        }
}
/// Is the spline bent abruptly?
pub fn corners(c: &StepCurve) -> bool {
    matches!(c, StepCurve::BSp { m, deg, .. } if m.len() > 2 && m[1..m.len() - 1].iter().any(|m| *m >= *deg as usize))
}
/// The control polygon goes on in one direction: the curve does not come near itself.
fn forward(p: &[P3]) -> bool {
    let d = p.last().map(|p| v3(*p)).unwrap_or_default() - p.first().map(|p| v3(*p)).unwrap_or_default();
    p.len() > 1 && p.windows(2).all(|w| (v3(w[1]) - v3(w[0])).dot(d) > 0.5 / p.len() as f64 * d.length_squared())
}
/// What a writer may put in a file and this reader understands.
pub fn valid(m: &StepS) -> bool {
    let angle_ok = |x: f64| x > 0.02 && x < TAU - 0.02;
    let curves = m.curves.iter().flatten().all(|s| {
        if m.forms & TRIM_POINT != 0 && matches!(&s.c, StepCurve::BSp { p, .. } if !forward(p) || corners(&s.c)) {
            return false;
        }
        let span = (s.r.0 - s.r.1).abs() > 0.05;
        c_ok(&s.c)
            && span
            && match &s.c {
                StepCurve::Circle { .. } => angle_ok(s.r.0) && angle_ok(s.r.1),
                StepCurve::Line { .. } => s.sense == (s.r.0 < s.r.1),
                c => s.sense == (s.r.0 < s.r.1) && crate::valid::seg(&SegS { c: curve_spec(c), r: s.r, tol: 0.01 }),
            }
    });
    let edge = |e: &StepEdge| {
        // a curve that is not closed does not come back
        let round = e.a == e.b && (matches!(e.c, StepCurve::Circle { .. }) || seam(&curve_spec(&e.c)).map(|s| s.0) == Some(e.a));
        if !c_ok(&e.c) || ((v3(e.a) - v3(e.b)).length() < 0.02 && !round) {
            return false;
        }
        let s = edge_spec(e);
        let on = near(seg_at(&s, 0.0), v3(e.a), 1e-7) && near(seg_at(&s, 1.0), v3(e.b), 1e-7);
        on && match &e.c {
            StepCurve::Circle { .. } => true,
            // a spline that comes near itself has no clear parameters; beside its corners they are hard to find
            StepCurve::BSp { p, .. } if seam(&s.c).is_none() && !forward(p) => false,
            StepCurve::BSp { p, .. }
                if corners(&e.c) && [e.a, e.b].iter().any(|v| !near(v3(*v), v3(p[0]), 1e-9) && !near(v3(*v), v3(p[p.len() - 1]), 1e-9)) =>
            {
                false
            }
            _ => e.same == (s.r.0 < s.r.1),
        }
    };
    let frame = |z: &P3, x: &P3| (v3(*z).length() - 1.0).abs() < 1e-6 && v3(*x).length() > 0.1 && v3(*z).dot(v3(*x)).abs() < 1e-6;
    let wok = |p: &Vec<Vec<P3>>, w: &Vec<Vec<f64>>| p.len() == w.len() && p.iter().zip(w).all(|(p, w)| p.len() == w.len());
    let nok = |p: &Vec<Vec<P3>>, d: &(u8, u8)| p.len() > d.0 as usize && !p.is_empty() && p[0].len() > d.1 as usize;
    let faces = m.faces.iter().all(|f| {
        f.b.iter().flatten().all(edge)
            && f.b.iter().all(|l| !l.is_empty())
            && match &f.s {
                StepSurf::Plane { z, x, .. } => frame(z, x) && (v3(*x).length() - 1.0).abs() < 1e-6,
                StepSurf::Cyl { z, x, .. } | StepSurf::Unknown { z, x, .. } => frame(z, x),
                StepSurf::BSp { ku, mu, kv, mv, .. } => ku.len() == mu.len() && kv.len() == mv.len(),
                StepSurf::RBSp { p, w, ku, mu, kv, mv, .. } => ku.len() == mu.len() && kv.len() == mv.len() && wok(p, w),
                StepSurf::Uni { p, deg } => nok(p, deg),
                StepSurf::RUni { p, w, deg } => nok(p, deg) && wok(p, w),
                StepSurf::Bez { p } => !p.is_empty(),
                StepSurf::Rev { c, .. } => c_ok(c) && !matches!(c, StepCurve::BSp { k, .. } if k[0] != 0.0 || k[k.len() - 1] != 1.0),
            }
            && (matches!(f.s, StepSurf::Unknown { .. }) || crate::valid::surf(&surf_spec(f)))
    });
    curves && faces
}
