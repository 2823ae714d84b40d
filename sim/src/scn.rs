//! Scenarios: everything one run does, explicitly. A run is a pure function of its scenario and the code.
use serde::{Deserialize, Serialize};

pub type P3 = [f64; 3];
pub type P4 = [f64; 4];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    #[serde(default)]
    pub seed: u64,
    /// files present at the start
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub files: Vec<(String, Bytes)>,
    /// objects shared by the threads
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub shared: Vec<Shared>,
    pub threads: Vec<Vec<Item>>,
    /// preemptions: (yield index, which other ready thread)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub preempt: Vec<(u64, u8)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Bytes {
    T(String),
    H(String),
}

impl Bytes {
    pub fn from_vec(v: &[u8]) -> Bytes {
        match std::str::from_utf8(v) {
            Ok(s) => Bytes::T(s.to_string()),
            Err(_) => Bytes::H(v.iter().map(|b| format!("{:02x}", b)).collect()),
        }
    }
    pub fn to_vec(&self) -> Vec<u8> {
        match self {
            Bytes::T(s) => s.as_bytes().to_vec(),
            Bytes::H(h) => {
                (0..h.len() / 2).map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2).unwrap_or("0"), 16).unwrap_or(0)).collect()
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Item {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Env::is_default")]
    pub env: Env,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DrawS {
    U(u64),
    Fixed(f64),
    Ext(u64),
    Mix(u64),
    Pair(f64, f64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ActS {
    /// the call fails with this errno
    Errno(i32),
    /// it and all later ones of its kind fail
    Dead(i32),
    Short(u32),
    Zero,
    Crash,
    CrashAfter(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FaultS {
    pub kind: String,
    pub nth: u32,
    pub act: ActS,
}

/// What the simulated environment does to one operation.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Env {
    #[serde(skip_serializing_if = "z")]
    pub wchunk: u32,
    #[serde(skip_serializing_if = "z")]
    pub rchunk: u32,
    #[serde(skip_serializing_if = "z")]
    pub eintr: u32,
    /// bytes of free disk space, -1: plenty
    pub cap: i64,
    #[serde(skip_serializing_if = "z8")]
    pub stat: u8,
    /// working directory: 0 ok, 1 read-only, 2 gone, 3 full
    #[serde(skip_serializing_if = "z8")]
    pub cwd: u8,
    #[serde(skip_serializing_if = "zi")]
    pub out: i32,
    #[serde(skip_serializing_if = "zi")]
    pub err: i32,
    pub draws: DrawS,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<FaultS>,
    /// simulated clock jump before the operation, seconds
    #[serde(skip_serializing_if = "z64")]
    pub jump: i64,
    /// process environment variables variant
    #[serde(skip_serializing_if = "z8")]
    pub vars: u8,
    /// the text every lookup of a variable gives
    #[serde(skip_serializing_if = "String::is_empty")]
    pub vtext: String,
}
fn z(x: &u32) -> bool {
    *x == 0
}
fn z8(x: &u8) -> bool {
    *x == 0
}
fn zi(x: &i32) -> bool {
    *x == 0
}
fn z64(x: &i64) -> bool {
    *x == 0
}
impl Default for Env {
    fn default() -> Env {
        Env {
            wchunk: 0,
            rchunk: 0,
            eintr: 0,
            cap: -1,
            stat: 0,
            cwd: 0,
            out: 0,
            err: 0,
            draws: DrawS::Fixed(0.5),
            faults: vec![],
            jump: 0,
            vars: 0,
            vtext: String::new(),
        }
    }
}
impl Env {
    pub fn is_default(&self) -> bool {
        *self == Env::default()
    }
    /// the same operation in a healthy environment
    pub fn clean(&self) -> Env {
        Env { draws: self.draws.clone(), ..Env::default() }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CurveS {
    Line { o: P3, d: P3 },
    Circle { c: P3, r: f64, axis: P3, refd: P3 },
    Poly { v: Vec<P3> },
    Bez { p: Vec<P3> },
    BSp { p: Vec<P3>, k: Vec<f64>, deg: u8 },
    RBez { p: Vec<P4> },
    RBSp { p: Vec<P4>, k: Vec<f64>, deg: u8 },
    /// straight line in the parameter plane of a surface, from a (t=0) to b (t=1)
    OnSurf { s: Box<SurfS>, a: [f64; 2], b: [f64; 2] },
    /// circular arc in the parameter plane of a surface, parameter is the angle
    OnSurfArc { s: Box<SurfS>, c: [f64; 2], r: f64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SegS {
    pub c: CurveS,
    pub r: (f64, f64),
    pub tol: f64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SurfS {
    Plane { o: P3, n: P3, u: P3 },
    Cyl { o: P3, axis: P3, refd: P3, r: f64 },
    BSp { p: Vec<Vec<P3>>, ku: Vec<f64>, kv: Vec<f64>, deg: (u8, u8) },
    RBSp { p: Vec<Vec<P4>>, ku: Vec<f64>, kv: Vec<f64>, deg: (u8, u8) },
    Bez { p: Vec<Vec<P3>> },
    Spin { o: P3, axis: P3, c: Box<CurveS> },
    Sweep { p: Box<CurveS>, s: Box<CurveS> },
    Umb { r: f64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MeshS {
    pub v: Vec<P3>,
    pub n: Vec<P3>,
    pub t: Vec<[u32; 3]>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FaceS {
    Mesh(MeshS),
    Patch { s: SurfS, r: ((f64, f64), (f64, f64)), d: (usize, usize) },
    Trim { s: SurfS, b: Vec<Vec<SegS>> },
    /// a caller's face that returns a different mesh on every call
    Wobble { seed: u64, n: u32 },
    /// a caller's face that panics on its k-th call
    Panicker { k: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Shared {
    Curve(CurveS),
    Surf(SurfS),
    Patch { s: SurfS, r: ((f64, f64), (f64, f64)), d: (usize, usize) },
    Mesh(MeshS),
    Points(Vec<P3>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    SaveObj { faces: Vec<FaceS>, path: String },
    SaveStl { faces: Vec<FaceS>, path: String },
    SaveSvg { curves: Vec<Vec<SegS>>, size: (f64, f64), path: String },
    MeshObj { mesh: MeshS, path: String },
    /// write to a caller's writer (which stores into the simulated file `path`)
    WriteObj { mesh: MeshS, vs: u32, ns: u32, path: String },
    SavePts { p: Vec<P3>, path: String },
    SavePtsN { p: Vec<(P3, P3)>, path: String },
    SavePts2 { p: Vec<[f64; 2]>, path: String },
    SaveBound { p: Vec<P3>, path: String },
    LoadPts { path: String },
    ReadStep { path: String, model: StepS },
    /// evaluate a curve
    EvalCurve { c: CurveS, u: Vec<f64> },
    ProjCurve { c: CurveS, p: Vec<P3> },
    EvalSurf { s: SurfS, uv: Vec<[f64; 2]> },
    ProjSurf { s: SurfS, p: Vec<P3> },
    /// derivatives, knots, splitting and decomposition of a curve, at parameters
    Algebra { c: CurveS, u: Vec<f64> },
    /// derivatives and normals of a spline surface
    SurfAlgebra { s: SurfS, uv: Vec<[f64; 2]> },
    Mesh { face: FaceS },
    /// sample parameters of a segment
    Sample { seg: SegS },
    /// sample points of a segment
    Points { seg: SegS },
    Polygon { l: Vec<SegS> },
    Trim { s: SurfS, b: Vec<Vec<SegS>> },
    /// operations on a shared object
    ShEval { i: usize, u: Vec<[f64; 2]> },
    ShProj { i: usize, p: Vec<P3> },
    ShMesh { i: usize },
    ShPoints { i: usize, r: (f64, f64), tol: f64 },
    ShTrim { i: usize, b: Vec<Vec<SegS>> },
    ShSave { i: usize, fmt: u8, path: String },
    /// the process dies and starts again
    Restart,
    /// caller-side removal of a file
    Remove { path: String },
    /// another program writes the file
    Put { path: String, b: Bytes },
}

// ---- STEP models ----
fn nil(x: &u32) -> bool {
    *x == 0
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum StepCurve {
    Line { o: P3, d: P3 },
    Circle { c: P3, axis: P3, refd: P3, r: f64 },
    Poly { v: Vec<P3> },
    BSp { p: Vec<P3>, k: Vec<f64>, m: Vec<usize>, deg: u8 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StepEdge {
    pub c: StepCurve,
    pub a: P3,
    pub b: P3,
    pub same: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum StepSurf {
    Plane { o: P3, z: P3, x: P3 },
    Cyl { o: P3, z: P3, x: P3, r: f64 },
    BSp { p: Vec<Vec<P3>>, ku: Vec<f64>, mu: Vec<usize>, kv: Vec<f64>, mv: Vec<usize>, deg: (u8, u8) },
    Bez { p: Vec<Vec<P3>> },
    /// spline without knots: uniform, clamped
    Uni { p: Vec<Vec<P3>>, deg: (u8, u8) },
    /// rational spline without knots
    RUni { p: Vec<Vec<P3>>, w: Vec<Vec<f64>>, deg: (u8, u8) },
    /// rational spline with knots (a complex entity instance)
    RBSp { p: Vec<Vec<P3>>, w: Vec<Vec<f64>>, ku: Vec<f64>, mu: Vec<usize>, kv: Vec<f64>, mv: Vec<usize>, deg: (u8, u8) },
    Rev { o: P3, z: P3, c: StepCurve },
    /// an entity the reader does not know: the face is skipped
    Unknown { o: P3, z: P3, x: P3, r: f64 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StepFace {
    pub s: StepSurf,
    pub same: bool,
    pub b: Vec<Vec<StepEdge>>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StepSeg {
    pub c: StepCurve,
    pub r: (f64, f64),
    pub sense: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct StepS {
    pub faces: Vec<StepFace>,
    pub curves: Vec<Vec<StepSeg>>,
    /// seed for entity numbering, order and formatting
    pub layout: u64,
    /// cut the file after this fraction (millionths) of its bytes; 0: whole
    #[serde(default)]
    pub cut: u32,
    /// other ways to write the same model (bits, see step.rs)
    #[serde(default, skip_serializing_if = "nil")]
    pub forms: u32,
}

impl Op {
    pub fn path(&self) -> Option<&str> {
        match self {
            Op::SaveObj { path, .. }
            | Op::SaveStl { path, .. }
            | Op::SaveSvg { path, .. }
            | Op::MeshObj { path, .. }
            | Op::WriteObj { path, .. }
            | Op::SavePts { path, .. }
            | Op::SavePtsN { path, .. }
            | Op::SavePts2 { path, .. }
            | Op::SaveBound { path, .. }
            | Op::LoadPts { path }
            | Op::ReadStep { path, .. }
            | Op::ShSave { path, .. }
            | Op::Put { path, .. }
            | Op::Remove { path } => Some(path),
            _ => None,
        }
    }
    pub fn path_mut(&mut self) -> Option<&mut String> {
        match self {
            Op::SaveObj { path, .. }
            | Op::SaveStl { path, .. }
            | Op::SaveSvg { path, .. }
            | Op::MeshObj { path, .. }
            | Op::WriteObj { path, .. }
            | Op::SavePts { path, .. }
            | Op::SavePtsN { path, .. }
            | Op::SavePts2 { path, .. }
            | Op::SaveBound { path, .. }
            | Op::LoadPts { path }
            | Op::ReadStep { path, .. }
            | Op::ShSave { path, .. }
            | Op::Put { path, .. }
            | Op::Remove { path } => Some(path),
            _ => None,
        }
    }
    pub fn writes(&self) -> bool {
        self.path().is_some() && !matches!(self, Op::LoadPts { .. } | Op::ReadStep { .. } | Op::Put { .. })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::SaveObj { .. } => "save-obj",
            Op::SaveStl { .. } => "save-stl",
            Op::SaveSvg { .. } => "save-svg",
            Op::MeshObj { .. } => "mesh-obj",
            Op::WriteObj { .. } => "write-obj",
            Op::SavePts { .. } => "save-points",
            Op::SavePtsN { .. } => "save-points-normals",
            Op::SavePts2 { .. } => "save-points-2d",
            Op::SaveBound { .. } => "save-outline",
            Op::LoadPts { .. } => "load-points",
            Op::ReadStep { .. } => "read-step",
            Op::EvalCurve { .. } => "eval-curve",
            Op::ProjCurve { .. } => "project-on-curve",
            Op::EvalSurf { .. } => "eval-surface",
            Op::ProjSurf { .. } => "project-on-surface",
            Op::Algebra { .. } => "curve-algebra",
            Op::SurfAlgebra { .. } => "surface-algebra",
            Op::Mesh { .. } => "mesh-face",
            Op::Sample { .. } => "sample-parameters",
            Op::Points { .. } => "sample-points",
            Op::Polygon { .. } => "loop-polygon",
            Op::Trim { .. } => "trim",
            Op::ShEval { .. } => "shared-eval",
            Op::ShProj { .. } => "shared-project",
            Op::ShMesh { .. } => "shared-mesh",
            Op::ShPoints { .. } => "shared-sample",
            Op::ShTrim { .. } => "shared-trim",
            Op::ShSave { .. } => "shared-save",
            Op::Restart => "restart",
            Op::Remove { .. } => "remove",
            Op::Put { .. } => "put",
        }
    }
}
