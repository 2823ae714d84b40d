//! Minimising a failing scenario: drop parts and simplify numbers while the same class of violation remains.
use crate::run::*;
use crate::scn::*;
use serde_json::Value;
use std::time::{Duration, Instant};

fn arrays(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize)>) {
    match v {
        Value::Array(a) => {
            out.push((path.clone(), a.len()));
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                arrays(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                arrays(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn leaves(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                leaves(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                leaves(x, path, out);
                path.pop();
            }
        }
        Value::Number(_) => out.push(path.clone()),
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

pub struct Shrunk {
    pub scn: Scenario,
    pub viol: ViolS,
    pub tries: u64,
    pub kept: u64,
}

pub fn shrink(s: &Scenario, v: &ViolS, limit: Duration) -> Shrunk {
    let t0 = Instant::now();
    let mut cur = serde_json::to_value(s).unwrap();
    let mut best = Shrunk { scn: s.clone(), viol: v.clone(), tries: 0, kept: 0 };
    let class = v.class.clone();
    let mut cache = Cache::new();
    let mut attempt = |cand: &Value, best: &mut Shrunk| -> bool {
        let Ok(sc) = serde_json::from_value::<Scenario>(cand.clone()) else { return false };
        if sc == best.scn || sc.threads.iter().flatten().count() == 0 {
            return false;
        }
        best.tries += 1;
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decide(&sc, &mut cache, false, false)));
        if let Ok(Verdict { viol: Some(x), .. }) = ok {
            if x.class == class {
                best.scn = sc;
                best.viol = x;
                best.kept += 1;
                return true;
            }
        }
        false
    };
    loop {
        let kept = best.kept;
        // drop array elements, big chunks first; outer arrays first
        let mut list = Vec::new();
        arrays(&cur, &mut vec![], &mut list);
        list.sort_by_key(|x| x.0.len());
        for (p, n) in list {
            let mut chunk = n;
            while chunk >= 1 {
                let mut i = 0;
                loop {
                    if t0.elapsed() > limit {
                        return best;
                    }
                    let len = match at(&mut cur, &p) {
                        Some(Value::Array(a)) => a.len(),
                        _ => 0,
                    };
                    if i >= len {
                        break;
                    }
                    let mut cand = cur.clone();
                    if let Some(Value::Array(a)) = at(&mut cand, &p) {
                        a.drain(i..(i + chunk).min(len));
                    }
                    if attempt(&cand, &mut best) {
                        cur = cand;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // environments back to normal, one field at a time
        let nt = best.scn.threads.len();
        for t in 0..nt {
            for i in 0..best.scn.threads[t].len() {
                let Value::Object(e) = serde_json::to_value(&best.scn.threads[t][i].env).unwrap() else { continue };
                for k in e.keys() {
                    if t0.elapsed() > limit {
                        return best;
                    }
                    let mut cand = cur.clone();
                    if let Some(Value::Object(o)) = at(&mut cand, &["threads".into(), t.to_string(), i.to_string(), "env".into()]) {
                        if o.remove(k).is_none() {
                            continue;
                        }
                    }
                    if attempt(&cand, &mut best) {
                        cur = cand;
                    }
                }
            }
        }
        // simpler numbers
        let mut ls = Vec::new();
        leaves(&cur, &mut vec![], &mut ls);
        for p in ls {
            if t0.elapsed() > limit {
                return best;
            }
            let Some(x) = at(&mut cur, &p).cloned() else { continue };
            let mut cands: Vec<Value> = Vec::new();
            if let Some(u) = x.as_u64() {
                if u > 0 {
                    cands = vec![0.into(), 1.into(), (u / 2).into()];
                }
            } else if let Some(i) = x.as_i64() {
                cands = vec![(-1i64).into(), (i / 2).into()];
            } else if let Some(f) = x.as_f64() {
                if f != 0.0 && f.is_finite() {
                    for c in [0.0, f.round(), (f * 10.0).round() / 10.0, (f * 100.0).round() / 100.0, (f * 1000.0).round() / 1000.0] {
                        if c != f {
                            cands.push(c.into());
                        }
                    }
                }
            }
            for c in cands {
                if c == x {
                    continue;
                }
                let mut cand = cur.clone();
                *at(&mut cand, &p).unwrap() = c;
                if attempt(&cand, &mut best) {
                    cur = cand;
                    break;
                }
            }
        }
        if best.kept == kept {
            return best;
        }
    }
}
