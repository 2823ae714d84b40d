//! Oracles over file contents: what a successful export must have stored.
use crate::geo::*;
use crate::scn::*;
use geom3d::{TriangleMesh, Vec3};

type R = Result<(), String>;

fn num(s: &str) -> Option<f64> {
    s.parse::<f64>().ok()
}
fn same(a: f64, b: f64) -> bool {
    a == b || a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same3(a: &P3, b: Vec3) -> bool {
    same(a[0], b.x) && same(a[1], b.y) && same(a[2], b.z)
}

pub struct ObjFile {
    pub v: Vec<P3>,
    pub vn: Vec<P3>,
    pub f: Vec<[(i64, Option<i64>); 3]>,
    pub l: Vec<(i64, i64)>,
}

pub fn parse_obj(b: &[u8]) -> Result<ObjFile, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8 text".to_string())?;
    let mut o = ObjFile { v: vec![], vn: vec![], f: vec![], l: vec![] };
    for (i, line) in s.lines().enumerate() {
        let bad = || format!("line {}: bad statement {:?}", i + 1, line);
        let mut t = line.split_whitespace();
        match t.next() {
            None => {}
            Some(k) if k.starts_with('#') => {}
            Some("o") | Some("g") | Some("s") | Some("usemtl") | Some("mtllib") => {}
            Some(k @ ("v" | "vn")) => {
                let c: Option<Vec<f64>> = t.map(num).collect();
                match c.as_deref() {
                    Some([x, y, z]) => {
                        if k == "v" {
                            o.v.push([*x, *y, *z])
                        } else {
                            o.vn.push([*x, *y, *z])
                        }
                    }
                    _ => return Err(bad()),
                }
            }
            Some("f") => {
                let mut c = Vec::new();
                for w in t {
                    let p: Vec<&str> = w.split('/').collect();
                    let a = p[0].parse::<i64>().map_err(|_| bad())?;
                    let n = match p.len() {
                        3 => Some(p[2].parse::<i64>().map_err(|_| bad())?),
                        1 | 2 => None,
                        _ => return Err(bad()),
                    };
                    c.push((a, n));
                }
                if c.len() != 3 {
                    return Err(bad());
                }
                o.f.push([c[0], c[1], c[2]]);
            }
            Some("l") => {
                let c: Result<Vec<i64>, _> = t.map(|x| x.parse::<i64>()).collect();
                let c = c.map_err(|_| bad())?;
                if c.len() < 2 {
                    return Err(bad());
                }
                for w in c.windows(2) {
                    o.l.push((w[0], w[1]));
                }
            }
            _ => return Err(bad()),
        }
    }
    Ok(o)
}

/// The OBJ must be the concatenation of one variant per face.
pub fn check_obj(b: &[u8], faces: &[Vec<TriangleMesh>], vs: i64, ns: i64) -> R {
    let o = parse_obj(b)?;
    if !o.l.is_empty() {
        return Err("unexpected line elements".into());
    }
    let mut why = String::new();
    fn rec(o: &ObjFile, faces: &[Vec<TriangleMesh>], k: usize, v: usize, n: usize, f: usize, vs: i64, ns: i64, why: &mut String) -> bool {
        if k == faces.len() {
            if v == o.v.len() && n == o.vn.len() && f == o.f.len() {
                return true;
            }
            *why = format!("{} vertices, {} normals, {} triangles beyond those of the faces", o.v.len() - v, o.vn.len() - n, o.f.len() - f);
            return false;
        }
        if faces[k].is_empty() {
            *why = format!("face {} was never tessellated", k);
            return false;
        }
        'variant: for m in &faces[k] {
            if o.v.len() < v + m.vertices.len() || o.vn.len() < n + m.normals.len() || o.f.len() < f + m.triangles.len() / 3 {
                *why = format!("face {} is incomplete: the file ends before its vertices, normals or triangles", k);
                continue;
            }
            for (i, p) in m.vertices.iter().enumerate() {
                if !same3(&o.v[v + i], *p) {
                    *why = format!("face {} vertex {}: file has {:?}, tessellation has {:?}", k, i, o.v[v + i], a3(*p));
                    continue 'variant;
                }
            }
            for (i, p) in m.normals.iter().enumerate() {
                if !same3(&o.vn[n + i], *p) {
                    *why = format!("face {} normal {}: file has {:?}, tessellation has {:?}", k, i, o.vn[n + i], a3(*p));
                    continue 'variant;
                }
            }
            for (i, t) in m.triangles.chunks(3).enumerate() {
                for c in 0..3 {
                    let (a, nn) = o.f[f + i][c];
                    if a != t[c] as i64 + v as i64 + vs {
                        *why = format!("face {} triangle {}: vertex index {} instead of {}", k, i, a, t[c] as i64 + v as i64 + vs);
                        continue 'variant;
                    }
                    let want = if m.normals.is_empty() { None } else { Some(t[c] as i64 + n as i64 + ns) };
                    if nn != want {
                        *why = format!("face {} triangle {}: normal index {:?} instead of {:?}", k, i, nn, want);
                        continue 'variant;
                    }
                }
            }
            if rec(o, faces, k + 1, v + m.vertices.len(), n + m.normals.len(), f + m.triangles.len() / 3, vs, ns, why) {
                return true;
            }
        }
        false
    }
    if rec(&o, faces, 0, 0, 0, 0, vs, ns, &mut why) {
        Ok(())
    } else {
        Err(why)
    }
}

pub fn check_stl(b: &[u8], faces: &[Vec<TriangleMesh>]) -> R {
    if b.len() < 84 {
        return Err(format!("only {} bytes", b.len()));
    }
    let n = u32::from_le_bytes(b[80..84].try_into().unwrap()) as usize;
    if b.len() != 84 + 50 * n {
        return Err(format!("{} bytes but the count says {} triangles ({} bytes)", b.len(), n, 84 + 50 * n));
    }
    let mut why = String::new();
    fn rec(b: &[u8], faces: &[Vec<TriangleMesh>], k: usize, at: usize, n: usize, why: &mut String) -> bool {
        if k == faces.len() {
            if at == n {
                return true;
            }
            *why = format!("{} triangles in the file, {} in the faces", n, at);
            return false;
        }
        if faces[k].is_empty() {
            *why = format!("face {} was never tessellated", k);
            return false;
        }
        'variant: for m in &faces[k] {
            let c = m.triangles.len() / 3;
            if at + c > n {
                *why = format!("face {}: file holds {} triangles, needs {}", k, n, at + c);
                continue;
            }
            for (i, t) in m.triangles.chunks(3).enumerate() {
                let r = &b[84 + 50 * (at + i)..84 + 50 * (at + i) + 50];
                for (j, x) in t.iter().enumerate() {
                    let p = m.vertices[*x as usize];
                    for (c, want) in [p.x, p.y, p.z].iter().enumerate() {
                        let o = 12 + 12 * j + 4 * c;
                        let got = f32::from_le_bytes(r[o..o + 4].try_into().unwrap());
                        if got.to_bits() != (*want as f32).to_bits() {
                            *why = format!("face {} triangle {} corner {} coordinate {}: {} instead of {}", k, i, j, c, got, *want as f32);
                            continue 'variant;
                        }
                    }
                }
            }
            if rec(b, faces, k + 1, at + c, n, why) {
                return true;
            }
        }
        false
    }
    if rec(b, faces, 0, 0, n, &mut why) {
        Ok(())
    } else {
        Err(why)
    }
}

/// One line of `w` numbers per entry.
pub fn check_rows(b: &[u8], rows: &[Vec<f64>]) -> R {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8 text".to_string())?;
    let lines: Vec<&str> = s.lines().collect();
    if lines.len() != rows.len() {
        return Err(format!("{} lines for {} entries", lines.len(), rows.len()));
    }
    for (i, (l, r)) in lines.iter().zip(rows).enumerate() {
        let c: Option<Vec<f64>> = l.split([' ', ',', '\t']).filter(|x| !x.is_empty()).map(num).collect();
        let ok = c.as_ref().map(|c| c.len() == r.len() && c.iter().zip(r).all(|(a, b)| same(*a, *b))).unwrap_or(false);
        if !ok {
            return Err(format!("entry {}: file has {:?}, saved {:?}", i, l, r));
        }
    }
    Ok(())
}

pub fn check_outline(b: &[u8], p: &[P3]) -> R {
    let o = parse_obj(b)?;
    if !o.f.is_empty() || !o.vn.is_empty() {
        return Err("unexpected elements".into());
    }
    if o.v.len() != p.len() {
        return Err(format!("{} vertices for {} points", o.v.len(), p.len()));
    }
    for (i, (a, b)) in o.v.iter().zip(p).enumerate() {
        if !same3(a, v3(*b)) {
            return Err(format!("vertex {}: file has {:?}, saved {:?}", i, a, b));
        }
    }
    let n = p.len() as i64;
    let want: Vec<(i64, i64)> = (1..=n).map(|i| (i, if i == n { 1 } else { i + 1 })).collect();
    if o.l != want {
        return Err(format!("line elements {:?} are not the closed chain of {} vertices", o.l, n));
    }
    Ok(())
}

// ---------------------------------------------------------------- loading

#[derive(Debug, Clone)]
pub struct Spelled {
    /// points of all lines that spell one
    pub pts: Vec<P3>,
    /// every line is a comment, blank, or spells a point
    pub wellformed: bool,
}

/// What a point file spells, line by line.
pub fn spell(b: &[u8]) -> Spelled {
    let mut r = Spelled { pts: vec![], wellformed: true };
    let mut lines: Vec<&[u8]> = b.split(|&c| c == b'\n').collect();
    match lines.last() {
        Some(l) if l.is_empty() => {
            lines.pop();
        }
        // cut between CR and LF: a damaged line end, which may be refused
        Some(l) if l.ends_with(b"\r") => r.wellformed = false,
        _ => {}
    }
    for l in lines {
        let Ok(s) = std::str::from_utf8(l) else {
            r.wellformed = false;
            continue;
        };
        let s = s.strip_suffix('\r').unwrap_or(s);
        if s.starts_with('#') {
            continue;
        }
        let t: Vec<&str> = s.split([' ', ',', '\t']).filter(|x| !x.is_empty()).collect();
        let c = match t.len() {
            0 => continue,
            3 => &t[..],
            4 => &t[1..],
            _ => {
                r.wellformed = false;
                continue;
            }
        };
        let c: Option<Vec<f64>> = c.iter().map(|x| num(x)).collect();
        match c {
            Some(c) => r.pts.push([c[0], c[1], c[2]]),
            None => r.wellformed = false,
        }
    }
    r
}

pub fn same_points(a: &[P3], b: &[P3]) -> R {
    if a.len() != b.len() {
        return Err(format!("{} points instead of {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !(0..3).all(|c| same(x[c], y[c])) {
            return Err(format!("point {}: {:?} instead of {:?}", i, x, y));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- SVG

#[derive(Clone, Debug)]
struct PathV {
    p: (f64, f64),
    /// M: pen up; L: straight; C: cubic with control points
    cmd: char,
    c: [(f64, f64); 2],
}

fn attr<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
    let mut at = 0;
    while let Some(i) = tag[at..].find(name) {
        let j = at + i;
        let before = tag[..j].chars().last().map(|c| c.is_whitespace()).unwrap_or(false);
        let rest = tag[j + name.len()..].trim_start();
        if before && rest.starts_with('=') {
            let r = rest[1..].trim_start();
            let q = r.chars().next()?;
            if q != '"' && q != '\'' {
                return None;
            }
            let e = r[1..].find(q)?;
            return Some(&r[1..1 + e]);
        }
        at = j + name.len();
    }
    None
}

fn parse_path(d: &str) -> Result<Vec<PathV>, String> {
    let mut toks: Vec<Result<f64, char>> = Vec::new();
    let b = d.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as char;
        if c.is_ascii_whitespace() || c == ',' {
            i += 1;
        } else if c.is_ascii_alphabetic() && c != 'e' && c != 'E' {
            toks.push(Err(c));
            i += 1;
        } else {
            let s = i;
            i += 1;
            while i < b.len() {
                let c = b[i] as char;
                let exp = b[i - 1] == b'e' || b[i - 1] == b'E';
                if c.is_ascii_digit() || c == '.' || c == 'e' || c == 'E' || ((c == '-' || c == '+') && exp) {
                    i += 1;
                } else {
                    break;
                }
            }
            toks.push(Ok(d[s..i].parse().map_err(|_| format!("bad number {:?} in path data", &d[s..i]))?));
        }
    }
    let mut out: Vec<PathV> = Vec::new();
    let mut cmd = ' ';
    let mut k = 0;
    let mut cur = (0.0, 0.0);
    let mut start = (0.0, 0.0);
    while k < toks.len() {
        if let Err(c) = toks[k] {
            cmd = c;
            k += 1;
            if c == 'Z' || c == 'z' {
                cur = start;
                out.push(PathV { p: cur, cmd: 'L', c: [cur; 2] });
                continue;
            }
        }
        let take = |k: &mut usize| -> Result<f64, String> {
            match toks.get(*k) {
                Some(Ok(x)) => {
                    *k += 1;
                    Ok(*x)
                }
                _ => Err("path data ends in the middle of a command".to_string()),
            }
        };
        let rel = cmd.is_ascii_lowercase();
        let o = if rel { cur } else { (0.0, 0.0) };
        match cmd.to_ascii_uppercase() {
            'M' | 'L' => {
                let x = take(&mut k)? + o.0;
                let y = take(&mut k)? + o.1;
                cur = (x, y);
                let c = cmd.to_ascii_uppercase();
                if c == 'M' {
                    start = cur;
                    cmd = if rel { 'l' } else { 'L' };
                }
                out.push(PathV { p: cur, cmd: c, c: [cur; 2] });
            }
            'H' => {
                cur = (take(&mut k)? + o.0, cur.1);
                out.push(PathV { p: cur, cmd: 'L', c: [cur; 2] });
            }
            'V' => {
                cur = (cur.0, take(&mut k)? + o.1);
                out.push(PathV { p: cur, cmd: 'L', c: [cur; 2] });
            }
            'C' => {
                let mut q = [(0.0, 0.0); 3];
                for p in q.iter_mut() {
                    let x = take(&mut k)? + o.0;
                    let y = take(&mut k)? + o.1;
                    *p = (x, y);
                }
                cur = q[2];
                out.push(PathV { p: cur, cmd: 'C', c: [q[0], q[1]] });
            }
            c => return Err(format!("unknown path command {:?}", c)),
        }
    }
    if let Some(f) = out.first() {
        if f.cmd != 'M' {
            return Err("path does not start with a move".into());
        }
    }
    Ok(out)
}

const ROUND: f64 = 0.0072;

/// Curve classes whose sampling keeps to the tolerance everywhere (see C11).
pub fn exact_class(c: &CurveS) -> bool {
    match c {
        CurveS::Line { .. } | CurveS::Circle { .. } => true,
        CurveS::Bez { p } => p.len() <= 4,
        CurveS::BSp { p, deg, .. } => p.len() == *deg as usize + 1 && *deg <= 3,
        _ => false,
    }
}

/// Do vertices i..=k of the path draw the segment from its start to its end? Returns all k that work.
fn walk(seg: &SegTab, v: &[PathV], i: usize, tol: f64) -> Vec<usize> {
    let p = |k: usize| Vec3::new(v[k].p.0, v[k].p.1, 0.0);
    let start = seg_at(&seg.seg, 0.0);
    let end = seg_at(&seg.seg, 1.0);
    let scale = start.length().max(end.length()).max(1.0);
    let rnd = ROUND + 1e-12 * scale;
    let mut ends = Vec::new();
    if (p(i) - start).length() > rnd {
        return ends;
    }
    let whole = matches!(seg.seg.c, CurveS::Poly { .. }) && seg.seg.r == (0.0, 1.0);
    let strict = exact_class(&seg.seg.c) || whole;
    let dev = if whole { rnd } else { 2.0 * tol + rnd };
    let mut t = 0.0;
    let mut k = i + 1;
    while k < v.len() {
        if v[k].cmd == 'M' {
            break;
        }
        let from = seg.back(t, 4.0 * rnd);
        let (tk, d) = seg.locate_from(p(k), from, rnd);
        if d > rnd {
            break;
        }
        let cubic = v[k].cmd == 'C';
        if cubic || strict {
            // points in between
            let n = 8;
            let mut bad = false;
            for s in 1..n {
                let s = s as f64 / n as f64;
                let q = if cubic {
                    let w = [(1.0 - s).powi(3), 3.0 * s * (1.0 - s).powi(2), 3.0 * s * s * (1.0 - s), s.powi(3)];
                    let a = v[k - 1].p;
                    Vec3::new(
                        w[0] * a.0 + w[1] * v[k].c[0].0 + w[2] * v[k].c[1].0 + w[3] * v[k].p.0,
                        w[0] * a.1 + w[1] * v[k].c[0].1 + w[2] * v[k].c[1].1 + w[3] * v[k].p.1,
                        0.0,
                    )
                } else {
                    p(k - 1) + (p(k) - p(k - 1)) * s
                };
                let lim = if cubic { rnd } else { dev };
                let (tq, d) = seg.locate_from(q, from, lim);
                let _ = tq;
                if d > lim + 1e-9 {
                    bad = true;
                    break;
                }
            }
            if bad {
                break;
            }
        }
        if (p(k) - end).length() <= rnd && (!strict || cubic && tk >= seg.back(1.0, 4.0 * rnd) || seg.follows(t, p(k - 1), p(k), dev)) {
            ends.push(k);
        }
        t = t.max(tk);
        k += 1;
    }
    // a segment shorter than the rounding may be a single vertex
    if seg.len <= rnd && ends.is_empty() {
        ends.push(i);
    }
    ends
}

/// The groups around the drawing turn it upright: y points up from the lower edge of the page, in whole units.
fn page(mut head: &str, height: f64) -> R {
    let mut m = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    while let Some(i) = head.find("<g") {
        head = &head[i + 2..];
        let Some(e) = head.find('>') else { break };
        let Some(list) = attr(&head[..e], "transform") else { continue };
        for one in list.split(')').map(|x| x.trim_matches(|c: char| c == ',' || c.is_whitespace())).filter(|x| !x.is_empty()) {
            let Some((name, args)) = one.split_once('(') else { return Err(format!("transform {:?} does not parse", list)) };
            let a: Option<Vec<f64>> =
                args.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).map(num).collect();
            let n = match (name.trim(), a.as_deref()) {
                ("matrix", Some(&[a, b, c, d, e, f])) => [a, b, c, d, e, f],
                ("translate", Some(&[x])) => [1.0, 0.0, 0.0, 1.0, x, 0.0],
                ("translate", Some(&[x, y])) => [1.0, 0.0, 0.0, 1.0, x, y],
                ("scale", Some(&[x])) => [x, 0.0, 0.0, x, 0.0, 0.0],
                ("scale", Some(&[x, y])) => [x, 0.0, 0.0, y, 0.0, 0.0],
                (_, None) => return Err(format!("transform {:?} does not parse", list)),
                // another way to say it
                _ => return Ok(()),
            };
            m = [
                m[0] * n[0] + m[2] * n[1],
                m[1] * n[0] + m[3] * n[1],
                m[0] * n[2] + m[2] * n[3],
                m[1] * n[2] + m[3] * n[3],
                m[0] * n[4] + m[2] * n[5] + m[4],
                m[1] * n[4] + m[3] * n[5] + m[5],
            ];
        }
    }
    let want = [1.0, 0.0, 0.0, -1.0, 0.0, height];
    let off = [1e-9, 1e-9, 1e-9, 1e-9, 1e-9, 0.5 + 1e-9 * (1.0 + height)];
    if m.iter().zip(want).zip(off).any(|((m, w), o)| (m - w).abs() > o) {
        return Err(format!("the drawing is placed by {:?} on a page of height {}", m, height));
    }
    Ok(())
}

pub fn check_svg(b: &[u8], size: (f64, f64), curves: &[Vec<SegS>]) -> R {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8 text".to_string())?;
    let t = s.trim();
    let i = t.find("<svg").ok_or("no svg element")?;
    if !t.ends_with("</svg>") {
        return Err("document is not complete".into());
    }
    let head = &t[i..i + t[i..].find('>').ok_or("svg tag not closed")?];
    for (name, want) in [("width", size.0), ("height", size.1)] {
        let a = attr(head, name).ok_or(format!("no {}", name))?;
        let v = a.trim_end_matches(|c: char| c.is_ascii_alphabetic());
        if num(v).map(|x| !same(x, want)).unwrap_or(true) {
            return Err(format!("{} is {:?}, requested {}", name, a, want));
        }
    }
    let view = attr(head, "viewBox").ok_or("no viewBox")?;
    let view: Vec<Option<f64>> = view.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).map(num).collect();
    if view.len() != 4 || [0.0, 0.0, size.0, size.1].iter().zip(&view).any(|(a, b)| b.map(|b| !same(b, *a)).unwrap_or(true)) {
        return Err(format!("the viewBox {:?} is not the page", attr(head, "viewBox")));
    }
    if let (Some(j), true) = (t[i..].find("<path"), !curves.is_empty()) {
        page(&t[i..i + j], size.1)?;
    }
    let mut paths = Vec::new();
    let mut rest = &t[i..];
    while let Some(j) = rest.find("<path") {
        rest = &rest[j..];
        let e = rest.find('>').ok_or("path tag not closed")?;
        paths.push(attr(&rest[..e], "d").unwrap_or("").to_string());
        rest = &rest[e..];
    }
    if paths.len() != curves.len() {
        return Err(format!("{} paths for {} curves", paths.len(), curves.len()));
    }
    for (ci, (d, segs)) in paths.iter().zip(curves).enumerate() {
        let v = parse_path(d).map_err(|e| format!("curve {}: {}", ci, e))?;
        if std::env::var("DST_DEBUG").is_ok() {
            eprintln!("curve {}: {}", ci, d);
        }
        if segs.is_empty() {
            if !v.is_empty() {
                return Err(format!("curve {}: empty curve has path data", ci));
            }
            continue;
        }
        if v.is_empty() {
            return Err(format!("curve {}: path is empty", ci));
        }
        // feasible start vertices of the next segment
        let mut starts: Vec<usize> = vec![0];
        for (si, seg) in segs.iter().enumerate() {
            let tab = SegTab::new(seg);
            let mut next: Vec<usize> = Vec::new();
            let mut fin = false;
            for &st in &starts {
                for k in walk(&tab, &v, st, seg.tol) {
                    if k + 1 == v.len() {
                        fin = true;
                    }
                    for x in [k, k + 1] {
                        if x < v.len() && !next.contains(&x) {
                            next.push(x);
                        }
                    }
                }
            }
            if si + 1 == segs.len() {
                if !fin {
                    return Err(format!("curve {}: the path does not run through segment {} to the end of the curve", ci, si));
                }
            } else if next.is_empty() {
                return Err(format!("curve {}: the path does not run through segment {}", ci, si));
            }
            starts = next;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- prefixes after a crash

/// After a crash: previous contents, or a prefix of the new ones (binary STL: count aside).
pub fn check_crashed(got: Option<&Vec<u8>>, old: Option<&Vec<u8>>, new: &[u8], stl: bool) -> R {
    if got == old {
        return Ok(());
    }
    let Some(g) = got else { return Err("the file is gone".into()) };
    if g.len() > new.len() {
        return Err(format!("{} bytes, longer than the complete file ({})", g.len(), new.len()));
    }
    for i in 0..g.len() {
        if g[i] != new[i] && !(stl && (80..84).contains(&i)) {
            return Err(format!("byte {} of {} differs from the complete file", i, g.len()));
        }
    }
    if stl && g.len() >= 84 {
        let n = u32::from_le_bytes(g[80..84].try_into().unwrap()) as usize;
        let have = (g.len() - 84) / 50;
        if n > have {
            return Err(format!("the file declares {} triangles but stores {}", n, have));
        }
    }
    Ok(())
}
