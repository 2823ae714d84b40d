//! Running scenarios against the real library inside the simulator.
use crate::geo::*;
use crate::scn::*;
use crate::step;
use geom3d::curve::Curve;
use geom3d::surface::{self, Surface, SurfacePatch, TrimmedSurface};
use geom3d::{points, utils, Face, Model, Point2, Point3, Polycurve, TriangleMesh, Vec3};
use simos::world::{self, Act, Cwd, Draws, Fault, Kind, OpCfg, OpRec};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub type Snap = BTreeMap<String, Vec<u8>>;

/// What a caller's panicking face says.
pub const FACE_PANIC: &str = "caller's face panics";

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Err(String),
    Panic(String),
}

#[derive(Clone)]
pub enum Val {
    Unit,
    Nums(Vec<f64>),
    Pts(Vec<Vec3>),
    Mesh(TriangleMesh),
    Step(step::ModelVal),
}

impl Val {
    /// every bit of the value
    pub fn bits(&self) -> Vec<u64> {
        let mut o = Vec::new();
        let v3 = |o: &mut Vec<u64>, p: &Vec3| o.extend([p.x.to_bits(), p.y.to_bits(), p.z.to_bits()]);
        match self {
            Val::Unit => {}
            Val::Nums(n) => o.extend(n.iter().map(|x| x.to_bits())),
            Val::Pts(p) => p.iter().for_each(|p| v3(&mut o, p)),
            Val::Mesh(m) => {
                o.push(m.vertices.len() as u64);
                m.vertices.iter().for_each(|p| v3(&mut o, p));
                o.push(m.normals.len() as u64);
                m.normals.iter().for_each(|p| v3(&mut o, p));
                o.extend(m.triangles.iter().map(|x| *x as u64));
            }
            Val::Step(m) => m.bits(&mut o),
        }
        o
    }
}

pub struct OpOut {
    pub tid: usize,
    pub ix: usize,
    pub res: Res,
    pub val: Val,
    /// meshes each face returned
    pub variants: Vec<Vec<TriangleMesh>>,
    pub rec: OpRec,
    pub before: Snap,
    pub after: Snap,
    /// the process died before or during this operation
    pub dead: bool,
    /// never started
    pub skipped: bool,
}

// ---------------------------------------------------------------- faces

type Log = Arc<Mutex<Vec<TriangleMesh>>>;

/// A face that remembers every mesh it handed out.
pub struct RecFace {
    inner: Box<dyn Face>,
    log: Log,
}
impl Face for RecFace {
    fn get_triangle_mesh(&self) -> TriangleMesh {
        let m = self.inner.get_triangle_mesh();
        simos::outside(|| self.log.lock().unwrap().push(m.clone()));
        m
    }
}

struct Wobble {
    seed: u64,
    n: u32,
    calls: Cell<u64>,
}
impl Face for Wobble {
    fn get_triangle_mesh(&self) -> TriangleMesh {
        simos::outside(|| {
            self.calls.set(self.calls.get() + 1);
            let mut s = self.seed ^ (self.calls.get() << 32);
            let mut r = |m: u64| {
                s = world::splitmix(s);
                s % m
            };
            let nv = 3 + r(self.n as u64 + 1) as usize;
            let nt = r(2 * self.n as u64 + 2) as usize;
            let normals = r(2) == 0;
            let mut c = |_: usize| Vec3::new(r(4000) as f64 / 128.0 - 15.0, r(4000) as f64 / 128.0 - 15.0, r(4000) as f64 / 128.0 - 15.0);
            let vertices: Vec<Vec3> = (0..nv).map(&mut c).collect();
            let normals: Vec<Vec3> = if normals { (0..nv).map(&mut c).collect() } else { vec![] };
            let mut s2 = self.seed.wrapping_add(self.calls.get() * 977);
            let triangles = (0..3 * nt)
                .map(|_| {
                    s2 = world::splitmix(s2);
                    (s2 % nv as u64) as u32
                })
                .collect();
            TriangleMesh { vertices, normals, triangles }
        })
    }
}

struct Panicker {
    k: u32,
    calls: Cell<u32>,
}
impl Face for Panicker {
    fn get_triangle_mesh(&self) -> TriangleMesh {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() == self.k {
            std::panic::panic_any(FACE_PANIC);
        }
        tri_mesh()
    }
}
fn tri_mesh() -> TriangleMesh {
    TriangleMesh { vertices: vec![Vec3::ZERO, Vec3::X, Vec3::Y], normals: vec![], triangles: vec![0, 1, 2] }
}

pub fn mk_mesh(m: &MeshS) -> TriangleMesh {
    TriangleMesh {
        vertices: m.v.iter().map(|p| v3(*p)).collect(),
        normals: m.n.iter().map(|p| v3(*p)).collect(),
        triangles: m.t.iter().flatten().cloned().collect(),
    }
}

type Range2 = ((f64, f64), (f64, f64));

fn mk_patch(s: &SurfS, r: Range2, d: (usize, usize)) -> Box<dyn Face> {
    match s {
        SurfS::BSp { p, ku, kv, deg } => {
            Box::new(SurfacePatch { surface: mk_bsp(p, ku, kv, *deg), parameter_range: r, parameter_division: d })
        }
        _ => Box::new(SurfacePatch { surface: mk_surf(s), parameter_range: r, parameter_division: d }),
    }
}

fn mk_face(f: &FaceS) -> Box<dyn Face> {
    match f {
        FaceS::Mesh(m) => Box::new(mk_mesh(m)),
        FaceS::Patch { s, r, d } => mk_patch(s, *r, *d),
        FaceS::Trim { s, b } => Box::new(TrimmedSurface { surface: mk_surf(s), bounds: mk_bounds(b) }),
        FaceS::Wobble { seed, n } => Box::new(Wobble { seed: *seed, n: *n, calls: Cell::new(0) }),
        FaceS::Panicker { k } => Box::new(Panicker { k: *k, calls: Cell::new(0) }),
    }
}

fn mk_model(faces: &[FaceS], logs: &[Log]) -> Model<RecFace> {
    let mut m = Model::new();
    for (f, l) in faces.iter().zip(logs) {
        m.add_face(RecFace { inner: mk_face(f), log: l.clone() });
    }
    m
}

// ---------------------------------------------------------------- shared objects

/// Concrete surfaces (a caller shares these between threads, not boxed ones).
pub enum SurfObj {
    Plane(surface::Plane),
    Cyl(surface::Cylinder),
    BSp(surface::BSplineSurface<Point3>),
    Other(Box<dyn Surface>),
}
impl SurfObj {
    pub fn new(s: &SurfS) -> SurfObj {
        match s {
            SurfS::Plane { o, n, u } => SurfObj::Plane(mk_plane(*o, *n, *u)),
            SurfS::Cyl { o, axis, refd, r } => SurfObj::Cyl(mk_cyl(*o, *axis, *refd, *r)),
            SurfS::BSp { p, ku, kv, deg } => SurfObj::BSp(mk_bsp(p, ku, kv, *deg)),
            _ => SurfObj::Other(mk_surf(s)),
        }
    }
    fn surf(&self) -> &dyn Surface {
        match self {
            SurfObj::Plane(s) => s,
            SurfObj::Cyl(s) => s,
            SurfObj::BSp(s) => s,
            SurfObj::Other(s) => s.as_ref(),
        }
    }
    fn eval(&self, uv: &[[f64; 2]]) -> Val {
        let mut pts: Vec<Vec3> = uv.iter().map(|p| self.surf().get_point(p[0], p[1])).collect();
        pts.extend(self.surf().get_normals(&uv.iter().map(|p| Point2::new(p[0], p[1])).collect::<Vec<_>>()));
        Val::Pts(pts)
    }
    fn project(&self, p: &[P3]) -> Val {
        let q: Vec<Vec3> = p.iter().map(|p| v3(*p)).collect();
        let mut o = Vec::new();
        match self {
            SurfObj::Plane(s) => q.iter().for_each(|p| o.push(s.project(*p))),
            SurfObj::Cyl(s) => q.iter().for_each(|p| {
                o.push(s.project(*p));
                let r = s.project_to_ring(*p, 50.0);
                o.push(r);
                let b = s.generate_point_from_ring(r, 50.0);
                o.push(Point2::new(b.x, b.y));
            }),
            SurfObj::BSp(s) => o = s.project_points(&q),
            SurfObj::Other(_) => {}
        }
        Val::Nums(o.iter().flat_map(|p| [p.x, p.y]).collect())
    }
}

pub enum Obj {
    Curve(Box<dyn Curve>),
    Surf(SurfObj),
    Face(Box<dyn Face>),
    Mesh(TriangleMesh),
    Points(Vec<Point3>),
}
/// The objects inside are of concrete library types without interior mutability that a caller may share.
pub struct SharedObjs(pub Vec<Obj>);
unsafe impl Sync for SharedObjs {}
unsafe impl Send for SharedObjs {}

pub fn mk_shared(s: &[Shared]) -> SharedObjs {
    SharedObjs(
        s.iter()
            .map(|s| match s {
                Shared::Curve(c) => Obj::Curve(mk_curve(c)),
                Shared::Surf(s) => Obj::Surf(SurfObj::new(s)),
                Shared::Patch { s, r, d } => Obj::Face(mk_patch(s, *r, *d)),
                Shared::Mesh(m) => Obj::Mesh(mk_mesh(m)),
                Shared::Points(p) => Obj::Points(p.iter().map(|p| v3(*p)).collect()),
            })
            .collect(),
    )
}

// ---------------------------------------------------------------- operations

pub fn cfg_of(e: &Env, limit: u64) -> OpCfg {
    OpCfg {
        wchunk: e.wchunk as usize,
        rchunk: e.rchunk as usize,
        eintr_every: e.eintr,
        cap: e.cap,
        stat_hint: e.stat,
        cwd: match e.cwd {
            1 => Cwd::ReadOnly,
            2 => Cwd::Gone,
            3 => Cwd::Full,
            _ => Cwd::Ok,
        },
        out_errno: e.out,
        err_errno: e.err,
        draws: match &e.draws {
            DrawS::U(s) => Draws::Uniform(*s),
            DrawS::Fixed(f) => Draws::Fixed(*f),
            DrawS::Ext(s) => Draws::Extremes(*s),
            DrawS::Mix(s) => Draws::Mix(*s),
            DrawS::Pair(a, b) => Draws::Pair(*a, *b),
        },
        faults: e
            .faults
            .iter()
            .filter_map(|f| {
                let i = world::KIND_NAMES.iter().position(|k| *k == f.kind)?;
                let kind: Kind = KINDS_BY_IX[i];
                let act = match f.act {
                    ActS::Errno(e) => Act::Errno(e),
                    ActS::Dead(e) => Act::Sticky(e),
                    ActS::Short(n) => Act::Short(n),
                    ActS::Zero => Act::Zero,
                    ActS::Crash => Act::Crash,
                    ActS::CrashAfter(n) => Act::CrashAfter(n),
                };
                Some(Fault { kind, nth: f.nth, act })
            })
            .collect(),
        step_limit: limit,
        vars: if e.vtext.is_empty() { e.vars } else { 9 },
        vtext: e.vtext.bytes().filter(|b| *b != 0).chain([0]).collect(),
    }
}
const KINDS_BY_IX: [Kind; 15] = [
    Kind::Any,
    Kind::Open,
    Kind::Read,
    Kind::Write,
    Kind::Seek,
    Kind::Stat,
    Kind::Trunc,
    Kind::Sync,
    Kind::Rename,
    Kind::Unlink,
    Kind::StdWrite,
    Kind::Clock,
    Kind::Draw,
    Kind::Close,
    Kind::Other,
];

struct PassWriter(std::fs::File);
impl std::io::Write for PassWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

type IoR = std::io::Result<Val>;

fn unit(r: std::io::Result<()>) -> IoR {
    r.map(|_| Val::Unit)
}

fn raw_path(p: &str) -> String {
    p.to_string()
}

/// Perform one operation (called inside the simulated region).
fn perform(op: &Op, sh: &SharedObjs, logs: &[Log]) -> IoR {
    match op {
        Op::SaveObj { faces, path } => {
            let m = simos::outside(|| mk_model(faces, logs));
            unit(m.save_as_obj(raw_path(path)))
        }
        Op::SaveStl { faces, path } => {
            let m = simos::outside(|| mk_model(faces, logs));
            unit(m.save_as_stl(raw_path(path)))
        }
        Op::SaveSvg { curves, size, path } => {
            let mut m: Model<TriangleMesh> = Model::new();
            for c in curves {
                m.add_curve(Polycurve { segments: c.iter().map(mk_seg).collect() });
            }
            unit(m.save_as_svg(raw_path(path), *size))
        }
        Op::MeshObj { mesh, path } => unit(mk_mesh(mesh).save_as_obj(raw_path(path))),
        Op::WriteObj { mesh, vs, ns, path } => {
            let mut w = PassWriter(std::fs::File::create(raw_path(path))?);
            unit(mk_mesh(mesh).write_obj(&mut w, *vs, *ns))
        }
        Op::SavePts { p, path } => unit(points::save_point_cloud(&p.iter().map(|p| v3(*p)).collect::<Vec<_>>(), raw_path(path))),
        Op::SavePtsN { p, path } => {
            unit(points::save_point_cloud_with_normal(&p.iter().map(|p| (v3(p.0), v3(p.1))).collect::<Vec<_>>(), raw_path(path)))
        }
        Op::SavePts2 { p, path } => {
            unit(points::save_points(&p.iter().map(|p| Point2::new(p[0], p[1])).collect::<Vec<_>>(), raw_path(path)))
        }
        Op::SaveBound { p, path } => unit(surface::save_bound_as_obj(&p.iter().map(|p| v3(*p)).collect::<Vec<_>>(), raw_path(path))),
        Op::LoadPts { path } => points::load_point_cloud(raw_path(path)).map(Val::Pts),
        Op::ReadStep { path, model } => {
            let m = geom3d::model::StepReader::read_model(raw_path(path))?;
            Ok(Val::Step(simos::outside(|| step::extract(&m, model))))
        }
        Op::EvalCurve { c, u } => {
            let c = mk_curve(c);
            Ok(Val::Pts(u.iter().map(|u| c.get_point(*u)).collect()))
        }
        Op::ProjCurve { c, p } => {
            let c = mk_curve(c);
            Ok(Val::Nums(p.iter().map(|p| c.project(v3(*p))).collect()))
        }
        Op::EvalSurf { s, uv } => Ok(SurfObj::new(s).eval(uv)),
        Op::ProjSurf { s, p } => Ok(SurfObj::new(s).project(p)),
        Op::Algebra { c, u } => Ok(Val::Nums(algebra(c, u))),
        Op::SurfAlgebra { s, uv } => Ok(Val::Nums(surf_algebra(s, uv))),
        Op::Mesh { face } => Ok(Val::Mesh(mk_face(face).get_triangle_mesh())),
        Op::Sample { seg } => Ok(Val::Nums(utils::parameter_division(mk_curve(&seg.c).as_ref(), seg.r, seg.tol))),
        Op::Points { seg } => Ok(Val::Pts(mk_seg(seg).get_points())),
        Op::Polygon { l } => Ok(Val::Pts(mk_loop(l).to_polygon())),
        Op::Trim { s, b } => Ok(Val::Mesh(SurfObj::new(s).surf().trim(&mk_bounds(b)))),
        Op::ShEval { i, u } => Ok(match &sh.0[*i] {
            Obj::Curve(c) => Val::Pts(u.iter().map(|u| c.get_point(u[0])).collect()),
            Obj::Surf(s) => s.eval(u),
            _ => Val::Unit,
        }),
        Op::ShProj { i, p } => Ok(match &sh.0[*i] {
            Obj::Curve(c) => Val::Nums(p.iter().map(|p| c.project(v3(*p))).collect()),
            Obj::Surf(s) => s.project(p),
            _ => Val::Unit,
        }),
        Op::ShMesh { i } => Ok(match &sh.0[*i] {
            Obj::Face(f) => Val::Mesh(f.get_triangle_mesh()),
            Obj::Mesh(m) => Val::Mesh(m.get_triangle_mesh()),
            _ => Val::Unit,
        }),
        Op::ShPoints { i, r, tol } => Ok(match &sh.0[*i] {
            Obj::Curve(c) => Val::Nums(utils::parameter_division(c.as_ref(), *r, *tol)),
            _ => Val::Unit,
        }),
        Op::ShTrim { i, b } => Ok(match &sh.0[*i] {
            Obj::Surf(s) => Val::Mesh(s.surf().trim(&mk_bounds(b))),
            _ => Val::Unit,
        }),
        Op::ShSave { i, fmt, path } => match &sh.0[*i] {
            Obj::Mesh(m) => unit(m.save_as_obj(raw_path(path))),
            Obj::Points(p) => unit(match fmt {
                0 => points::save_point_cloud(p, raw_path(path)),
                _ => surface::save_bound_as_obj(p, raw_path(path)),
            }),
            _ => Ok(Val::Unit),
        },
        Op::Restart | Op::Remove { .. } | Op::Put { .. } => Ok(Val::Unit),
    }
}

/// Step limit of one operation (basic blocks and allocations).
pub static mut STEP_LIMIT: u64 = 60_000_000;

fn run_item(tid: usize, ix: usize, item: &Item, sh: &SharedObjs, snaps: bool) -> OpOut {
    let empty = OpRec { op: 0, touched: Default::default(), read: Default::default(), counts: [0; 15], steps: 0, ndraw: 0, hard: false };
    let mut out = OpOut {
        tid,
        ix,
        res: Res::Ok,
        val: Val::Unit,
        variants: vec![],
        rec: empty,
        before: Snap::new(),
        after: Snap::new(),
        dead: false,
        skipped: false,
    };
    match &item.op {
        Op::Restart => {
            world::restart();
            return out;
        }
        Op::Remove { path } => {
            if !world::world().crashed {
                world::world().remove(path);
            }
            return out;
        }
        Op::Put { path, b } => {
            place(path, &b.to_vec());
            return out;
        }
        _ => {}
    }
    if world::world().crashed {
        out.dead = true;
        out.skipped = true;
        return out;
    }
    if let Op::ReadStep { path, model } = &item.op {
        place(path, &step::render(model));
    }
    world::advance_clock(item.env.jump.saturating_mul(1_000_000_000));
    let logs: Vec<Log> = match &item.op {
        Op::SaveObj { faces, .. } | Op::SaveStl { faces, .. } => faces.iter().map(|_| Log::default()).collect(),
        _ => vec![],
    };
    if snaps {
        out.before = world::world().snapshot();
    }
    let cfg = cfg_of(&item.env, unsafe { STEP_LIMIT });
    let r = simos::enter((tid * 1000 + ix) as u32, &cfg, || perform(&item.op, sh, &logs));
    out.dead = world::world().crashed;
    out.rec = world::world().done.pop().unwrap();
    if snaps {
        out.after = world::world().snapshot();
    } else if let Some(p) = item.op.path() {
        let w = world::world();
        if let Some(d) = w.get(p) {
            out.after.insert(world::norm(p), d.clone());
        }
    }
    out.variants = logs.iter().map(|l| l.lock().map(|v| v.clone()).unwrap_or_else(|e| e.into_inner().clone())).collect();
    match r {
        Ok(Ok(v)) => out.val = v,
        Ok(Err(e)) => out.res = Res::Err(format!("{:?}: {}", e.kind(), e)),
        Err(p) => out.res = Res::Panic(format!("{}{}", p, last_panic_at())),
    }
    out
}

/// Another program writes a file.
fn place(path: &str, bytes: &[u8]) {
    let n = world::norm(path);
    let dirs = &world::world().dirs;
    let parent = match n.rfind('/') {
        Some(0) | None => "/",
        Some(i) => &n[..i],
    };
    if !world::world().crashed && !dirs.contains(&n) && dirs.iter().any(|d| d == parent) && !path.contains("missing") {
        world::world().put(path, bytes.to_vec());
    }
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn last_panic_at() -> String {
    PANIC_AT.with(|p| {
        let s = p.borrow().clone();
        if s.is_empty() {
            s
        } else {
            format!(" ({})", s)
        }
    })
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        simos::outside(|| {
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC_AT.with(|p| *p.borrow_mut() = at);
        })
    }));
}

struct SendBox<T>(T);
unsafe impl<T> Send for SendBox<T> {}

/// Run a scenario from a fresh world.
pub fn execute(s: &Scenario, verbose: bool) -> Result<Vec<OpOut>, String> {
    world::new_world(verbose);
    for (p, b) in &s.files {
        world::world().put(p, b.to_vec());
    }
    simos::sched::reset(s.preempt.clone());
    let sh = std::panic::catch_unwind(|| mk_shared(&s.shared)).map_err(|_| "building the shared objects panicked".to_string())?;
    let snaps = s.threads.len() <= 1;
    let sh = Arc::new(sh);
    let mut hs = Vec::new();
    for (tid, items) in s.threads.iter().enumerate() {
        let t = simos::sched::new_thread();
        let items = items.clone();
        let sh = sh.clone();
        let b = SendBox((items, sh));
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                simos::sched::thread_begin(t);
                let b = b;
                let (items, sh) = b.0;
                let mut outs = Vec::new();
                for (ix, it) in items.iter().enumerate() {
                    outs.push(run_item(tid, ix, it, &sh, snaps));
                }
                drop(sh);
                simos::sched::thread_end(t);
                SendBox(outs)
            })
            .map_err(|e| format!("cannot start a thread: {}", e))?;
        hs.push((t, h));
    }
    let mut out = Vec::new();
    for (t, h) in hs {
        simos::sched::join(t);
        out.extend(h.join().map_err(|_| "harness thread panicked".to_string())?.0);
    }
    Ok(out)
}

/// Everything a curve's algebra gives at some parameters.
use geom3d::{curve, KnotVector};
fn algebra(c: &CurveS, u: &[f64]) -> Vec<f64> {
    let mut o: Vec<f64> = Vec::new();
    let put = |o: &mut Vec<f64>, p: &[Point3]| o.extend(p.iter().flat_map(|p| [p.x, p.y, p.z]));
    match c {
        CurveS::BSp { p, k, deg } => {
            let b = curve::BSplineCurve {
                control_points: p.iter().map(|p| v3(*p)).collect::<Vec<Point3>>(),
                knots: KnotVector::new(k.clone()),
                degree: *deg,
            };
            let d = b.derivative();
            put(&mut o, &u.iter().map(|u| d.get_point(*u)).collect::<Vec<_>>());
            for t in u {
                let mut x = b.clone();
                let y = x.split(*t);
                for z in [&x, &y] {
                    put(&mut o, &z.control_points);
                    o.extend(z.knots.iter());
                }
                let mut x = b.clone();
                x.add_knot(*t);
                put(&mut o, &x.control_points);
                o.extend(x.knots.iter());
                o.extend(b.knots.bspline_basis(*deg as usize, *t));
                o.push(b.knots.span_index(*t) as f64);
            }
            for x in b.to_piecewise_bezier() {
                put(&mut o, &x.control_points);
            }
            let kv = &b.knots;
            o.extend(kv.normalize().iter());
            o.extend(kv.shrink().iter());
            o.extend(kv.spans(*deg as usize));
            o.extend((0..k.len()).map(|i| kv.multiplicity(i) as f64));
            o.extend(KnotVector::uniform_knot(*deg as usize, p.len()).iter());
            o.extend(KnotVector::bezier_knot(*deg as usize).iter());
            o.extend(utils::uniform_divide(kv.range(), p.len() + u.len()));
            let pl = curve::Polyline::new(b.control_points.clone());
            let at: Vec<Point3> = u.iter().map(|u| b.get_point(*u)).collect();
            for q in &at {
                o.push(pl.nearest_vertex(*q) as f64);
                o.push(utils::find_nearest_point(&b.control_points, *q) as f64);
                o.push(utils::distance_to_line_segment(b.control_points[0], b.control_points[1], *q));
            }
            put(&mut o, &points::scale_points(&at, u[0]));
        }
        CurveS::Bez { p } => {
            let b = curve::BezierCurve { control_points: p.iter().map(|p| v3(*p)).collect::<Vec<Point3>>() };
            let d = b.derivative();
            put(&mut o, &u.iter().map(|u| d.get_point(*u)).collect::<Vec<_>>());
            put(&mut o, &d.control_points);
        }
        _ => {}
    }
    o
}
fn surf_algebra(s: &SurfS, uv: &[[f64; 2]]) -> Vec<f64> {
    let mut o = Vec::new();
    if let SurfS::BSp { p, ku, kv, deg } = s {
        let b = mk_bsp(p, ku, kv, *deg);
        let (du, dv) = (b.derivative_u(), b.derivative_v());
        for q in uv {
            for p in [du.get_point(q[0], q[1]), dv.get_point(q[0], q[1])] {
                o.extend([p.x, p.y, p.z]);
            }
        }
        let uv: Vec<Point2> = uv.iter().map(|q| Point2::new(q[0], q[1])).collect();
        o.extend(b.get_normals(&uv).iter().flat_map(|p| [p.x, p.y, p.z]));
    }
    o
}
