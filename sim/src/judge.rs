//! Deciding one operation's outcome against what the properties demand of it.
use crate::content::*;
use crate::exec::*;
use crate::geo::*;
use crate::scn::*;
use crate::{step, topo};
use geom3d::TriangleMesh;
use simos::world::norm;
use std::collections::BTreeSet;

/// A violation: class (stable under minimisation) and description.
pub type Viol = (String, String);

fn v<T>(class: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err((class.to_string(), msg.into()))
}

pub const DIRS: [&str; 6] = ["/", "/cwd", "/cwd/tmp", "/data", "/tmp", "/home"];

fn parent_ok(p: &str) -> bool {
    let par = match p.rfind('/') {
        Some(0) | None => "/",
        Some(i) => &p[..i],
    };
    DIRS.contains(&par)
}

/// The path names something the operation can work with.
pub fn path_usable(op: &Op, before: &Snap) -> bool {
    let Some(p) = op.path() else { return true };
    if p.is_empty() || p.contains('\0') {
        return false;
    }
    let n = norm(p);
    if DIRS.contains(&n.as_str()) || p.ends_with('/') || p.split('/').any(|c| c.len() > 255) {
        return false;
    }
    // every directory named on the way must exist
    let mut at = if p.starts_with('/') { String::new() } else { "/cwd".to_string() };
    let comps: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    for c in comps.iter().take(comps.len().saturating_sub(1)) {
        if *c == ".." {
            at = at[..at.rfind('/').unwrap_or(0)].to_string();
        } else {
            at = format!("{}/{}", at, c);
        }
        if !at.is_empty() && !DIRS.contains(&at.as_str()) {
            return false;
        }
    }
    if matches!(comps.last(), Some(&"..")) {
        return false;
    }
    match op {
        Op::LoadPts { .. } | Op::ReadStep { .. } => before.contains_key(&n),
        _ => parent_ok(&n),
    }
}

/// Faces whose tessellation depends on draws or on how often it is asked for.
fn has_panicker(op: &Op) -> bool {
    match op {
        Op::SaveObj { faces, .. } | Op::SaveStl { faces, .. } => faces.iter().any(|f| matches!(f, FaceS::Panicker { .. })),
        _ => false,
    }
}

/// The contents the file must have after a success of this operation.
pub fn check_content(op: &Op, variants: &[Vec<TriangleMesh>], shared: &[Shared], file: &[u8]) -> Result<(), String> {
    match op {
        Op::SaveObj { .. } => check_obj(file, variants, 1, 1),
        Op::SaveStl { .. } => check_stl(file, variants),
        Op::MeshObj { mesh, .. } => check_obj(file, &[vec![mk_mesh(mesh)]], 1, 1),
        Op::WriteObj { mesh, vs, ns, .. } => check_obj(file, &[vec![mk_mesh(mesh)]], *vs as i64, *ns as i64),
        Op::SaveSvg { curves, size, .. } => check_svg(file, *size, curves),
        Op::SavePts { p, .. } => check_rows(file, &p.iter().map(|p| p.to_vec()).collect::<Vec<_>>()),
        Op::SavePtsN { p, .. } => check_rows(file, &p.iter().map(|p| [p.0, p.1].concat()).collect::<Vec<_>>()),
        Op::SavePts2 { p, .. } => check_rows(file, &p.iter().map(|p| p.to_vec()).collect::<Vec<_>>()),
        Op::SaveBound { p, .. } => check_outline(file, p),
        Op::ShSave { i, fmt, .. } => match (&shared[*i], fmt) {
            (Shared::Mesh(m), _) => check_obj(file, &[vec![mk_mesh(m)]], 1, 1),
            (Shared::Points(p), 0) => check_rows(file, &p.iter().map(|p| p.to_vec()).collect::<Vec<_>>()),
            (Shared::Points(p), _) => check_outline(file, p),
            _ => Ok(()),
        },
        _ => Ok(()),
    }
}

fn sv3(p: &[geom3d::Vec3]) -> Vec<P3> {
    p.iter().map(|p| a3(*p)).collect()
}

/// The specification's preconditions of a geometric operation. Runs that leave them are not judged.
pub fn precondition(op: &Op, shared: &[Shared]) -> bool {
    let trim_ok = |s: &SurfS, b: &Vec<Vec<SegS>>| match s {
        SurfS::Plane { .. } => topo::planar_pre(s, b),
        SurfS::Cyl { .. } | SurfS::BSp { .. } => topo::curved_pre(s, b),
        _ => true,
    };
    match op {
        Op::Trim { s, b } | Op::Mesh { face: FaceS::Trim { s, b } } => trim_ok(s, b),
        Op::ShTrim { i, b } => match shared.get(*i) {
            Some(Shared::Surf(s)) => trim_ok(s, b),
            _ => true,
        },
        Op::SaveObj { faces, .. } | Op::SaveStl { faces, .. } => faces.iter().all(|f| match f {
            FaceS::Trim { s, b } => trim_ok(s, b),
            _ => true,
        }),
        Op::Polygon { l } => topo::loop_closed(l, 1e-9) && topo::extent(l) > 0.05,
        _ => true,
    }
}

/// Valid geometry for an operation that may draw random numbers.
pub fn check_value(op: &Op, shared: &[Shared], val: &Val) -> Result<(), Viol> {
    let g = |r: Result<(), String>| r.map_err(|e| ("geometry".to_string(), e));
    let trim = |s: &SurfS, b: &Vec<Vec<SegS>>, m: &TriangleMesh| match s {
        SurfS::Plane { .. } => g(topo::check_planar(m, s, b)),
        SurfS::Cyl { .. } | SurfS::BSp { .. } => g(topo::check_curved(m, s, b)),
        _ => Ok(()),
    };
    match (op, val) {
        (Op::Trim { s, b }, Val::Mesh(m)) | (Op::Mesh { face: FaceS::Trim { s, b } }, Val::Mesh(m)) => trim(s, b, m),
        (Op::ShTrim { i, b }, Val::Mesh(m)) => match &shared[*i] {
            Shared::Surf(s) => trim(s, b, m),
            _ => Ok(()),
        },
        (Op::Sample { seg }, Val::Nums(u)) => g(topo::check_params(u, seg)),
        (Op::ShPoints { i, r, tol }, Val::Nums(u)) => match &shared[*i] {
            Shared::Curve(c) => g(topo::check_params(u, &SegS { c: c.clone(), r: *r, tol: *tol })),
            _ => Ok(()),
        },
        (Op::Points { seg }, Val::Pts(p)) => g(topo::check_points(p, seg)),
        (Op::Polygon { l }, Val::Pts(p)) => g(topo::check_polygon(p, l)),
        _ => Ok(()),
    }
}

/// Judge an operation by itself.
pub fn judge(item: &Item, o: &OpOut, shared: &[Shared], solo: bool) -> Result<(), Viol> {
    let name = item.op.name();
    if o.skipped || matches!(item.op, Op::Restart | Op::Remove { .. } | Op::Put { .. }) {
        return Ok(());
    }
    // side effects
    let mine: Option<String> = item.op.path().map(norm);
    let writes = item.op.writes();
    let allowed: BTreeSet<String> = if writes { mine.iter().cloned().collect() } else { BTreeSet::new() };
    if let Some(t) = o.rec.touched.iter().find(|t| !allowed.contains(*t)) {
        return v("side-effect", format!("{}: created, changed or opened for writing {}", name, t));
    }
    if solo {
        for k in o.before.keys().chain(o.after.keys()) {
            if !allowed.contains(k) && o.before.get(k) != o.after.get(k) {
                return v("side-effect", format!("{}: changed {}", name, k));
            }
        }
    }
    if o.dead {
        return Ok(());
    }
    let usable = !solo || path_usable(&item.op, &o.before);
    match &o.res {
        Res::Panic(p) => {
            if has_panicker(&item.op) && p.starts_with(FACE_PANIC) {
                return Ok(());
            }
            return v("panic", format!("{}: panicked: {}", name, p));
        }
        Res::Err(e) => {
            if o.rec.hard || !usable {
                return Ok(());
            }
            if !solo && matches!(item.op, Op::LoadPts { .. } | Op::ReadStep { .. }) {
                // the outcome alone decides (see decide_threads)
                return Ok(());
            }
            // legitimate data errors
            match &item.op {
                Op::LoadPts { path } => {
                    let file = o.before.get(&norm(path)).cloned().unwrap_or_default();
                    if !spell(&file).wellformed {
                        return Ok(());
                    }
                }
                Op::ReadStep { model, .. } => {
                    if step::is_cut(model) {
                        return Ok(());
                    }
                }
                _ => {}
            }
            if item.env.cwd != 0 && item.op.path().map(|p| norm(p).starts_with("/cwd/")).unwrap_or(false) {
                return Ok(());
            }
            return v("spurious-error", format!("{}: failed although nothing went wrong: {}", name, e));
        }
        Res::Ok => {}
    }
    if writes {
        let Some(file) = o.after.get(mine.as_ref().unwrap()) else {
            return v("content", format!("{}: reported success but there is no file", name));
        };
        if let Err(e) = check_content(&item.op, &o.variants, shared, file) {
            return v("content", format!("{}: reported success but the file is wrong: {}", name, e));
        }
        return Ok(());
    }
    match (&item.op, &o.val) {
        (Op::LoadPts { path }, Val::Pts(p)) => {
            if solo {
                let Some(file) = o.before.get(&norm(path)) else {
                    return v("value", "load-points: reported success but there is no file");
                };
                let s = spell(file);
                if let Err(e) = same_points(&sv3(p), &s.pts) {
                    return v("value", format!("load-points: {}", e));
                }
            }
            Ok(())
        }
        (Op::ReadStep { model, .. }, Val::Step(m)) => {
            if solo && !usable {
                return v("value", "read-step: reported success but there is no file");
            }
            if step::is_cut(model) {
                return v("value", "read-step: reported success for a truncated file");
            }
            step::check(m, model).map_err(|e| ("value".to_string(), format!("read-step: {}", e)))
        }
        (op, val) => check_value(op, shared, val).map_err(|(c, m)| (c, format!("{}: {}", name, m))),
    }
}
