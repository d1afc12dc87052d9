//! C01, C02: histories of registrations and requests, replayed against real servers (one per history).
use crate::util::*;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

fn piece(p: &Value) -> String {
    let s = p["s"].as_str().unwrap();
    if p["p"].as_bool().unwrap() { format!(":{}", s) } else { s.to_string() }
}
fn pieces(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(piece).collect()
}
fn segs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn slash(v: &[String]) -> String {
    v.iter().map(|s| format!("/{}", s)).collect()
}

fn attempt(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok()
}

type Seen = Arc<Mutex<Vec<Value>>>;

/// The parameter names a handler asks for: every name used anywhere in the history, plus one never used.
fn names(ops: &[Value]) -> Vec<String> {
    let mut n: Vec<String> = vec!["zz".into()];
    for o in ops {
        if o["op"] == "reg" {
            for p in o["pat"].as_array().unwrap() {
                let s = p["s"].as_str().unwrap().to_string();
                if p["p"].as_bool().unwrap() && !n.contains(&s) {
                    n.push(s)
                }
            }
        }
    }
    n
}

pub fn run_history(ops: &[Value]) -> Vec<Value> {
    // Handlers of concurrently running histories share the table: a slot only reports to the history that
    // is named in the request's X-Case header.
    let srv = start(2, Some(30000), false);
    let mut out = vec![json!({"e": "case"})];
    let names = names(ops);
    let mut reg = 0usize;
    let id = srv.port as usize;
    for o in ops {
        match o["op"].as_str().unwrap() {
            "reg" => {
                let pat = pieces(&o["pat"]);
                let g = o["g"].as_u64().unwrap() as usize;
                let m = o["m"].as_str().unwrap();
                let (group, own) = (slash(&pat[..g]), slash(&pat[g..]));
                let ok = attempt(|| route(&srv.server, &group, None, m, &own, H[reg + 1], None));
                if ok { reg += 1 }
                out.push(json!({"e": "reg", "m": m, "pat": o["pat"], "id": reg, "ok": ok, "abs": true}));
            }
            "dup" => {
                let pat = pieces(&o["pat"]);
                let g = o["g"].as_u64().unwrap() as usize;
                let m = o["m"].as_str().unwrap();
                let (group, mut own) = (slash(&pat[..g]), slash(&pat[g..]));
                if !o["abs"].as_bool().unwrap() {
                    own.remove(0);
                }
                // an accepted one answers with a handler no route has
                let ok = attempt(|| route(&srv.server, &group, None, m, &own, H[H.len() - 1], None));
                out.push(json!({"e": "reg", "m": m, "pat": o["pat"], "id": 0, "ok": ok, "abs": o["abs"]}));
            }
            _ => {
                let m = o["m"].as_str().unwrap();
                let mut target = slash(&segs(&o["path"]));
                let abs = o["abs"].as_bool().unwrap();
                if !abs {
                    target.remove(0);
                }
                if o["q"].as_bool().unwrap_or(false) {
                    target.push_str("?a=b/c&d");
                }
                let seen: Seen = Arc::new(Mutex::new(vec![]));
                lock(cases()).insert(id, (seen.clone(), names.clone()));
                let req = format!("{} {} HTTP/1.1\r\nHost: h\r\nX-Case: {}\r\n\r\n", m, target, id);
                let r = once(srv.port, req.as_bytes());
                lock(cases()).remove(&id);
                let runs = lock(&seen).clone();
                out.push(json!({"e": "req", "m": m, "path": o["path"], "abs": abs, "end": r.end, "status": r.status,
                                "body": String::from_utf8_lossy(&r.body), "runs": runs}));
            }
        }
    }
    out
}

type Case = (Seen, Vec<String>);
fn cases() -> &'static Mutex<std::collections::HashMap<usize, Case>> {
    static C: std::sync::OnceLock<Mutex<std::collections::HashMap<usize, Case>>> = std::sync::OnceLock::new();
    C.get_or_init(|| Mutex::new(Default::default()))
}

pub fn bind_handlers() {
    for i in 1..H.len() {
        bind(i, move |ctx| {
            let id: usize = ctx.req_header_get("X-Case").and_then(|s| s.parse().ok()).unwrap_or(0);
            let case = lock(cases()).get(&id).cloned();
            if let Some((seen, names)) = case {
                let mut f = vec![];
                let mut agree = true;
                for n in &names {
                    let v = ctx.req_field(n.as_str());
                    agree &= v.is_some() == ctx.req_have_field(n.as_str());
                    if let Some(v) = v {
                        f.push(json!({"n": n, "v": v}))
                    }
                }
                lock(&seen).push(json!({"id": i, "f": f, "cnt": ctx.req_count_fields(), "agree": agree, "path": ctx.req_path()}));
            }
            ctx.resp_body(format!("h{}", i).into_bytes());
            ctx.response();
        })
    }
}

/// A segment of any characters a target may carry.
fn wild(r: &mut Rng) -> String {
    match r.below(4) {
        0 => { let c = *r.pick(&["a", "b", "ab"]); let t = *r.pick(&[";v=1", "%2F", "%20", ".", "..", "~", "+", "=", "&b", "*", "@h", ",", "|", "\\", "\"", "{x}", "\u{e9}", ":", "!"]); format!("{}{}", c, t) }
        1 => r.pick(&[".", "..", "*", ":", ":x", "%2e%2e", "a%00", "{id}", "=", "&", "\u{4e2d}\u{6587}", "-", "0", "null", "A"]).to_string(),
        2 => { let n = if r.chance(1, 8) { r.range(1000, 6000) } else { r.range(30, 300) }; (0..n).map(|_| *r.pick(&['a', 'b', '-', '.', '7'])).collect() }
        _ => crate::http::text(r, 8, " /?#\t"),
    }
}

fn piece_list(pat: &[String]) -> Vec<Value> {
    pat.iter().map(|s| match s.strip_prefix(':') {
        Some(n) => json!({"p": true, "s": n}),
        None => json!({"p": false, "s": s}),
    }).collect()
}

fn random_history(r: &mut Rng) -> Vec<Value> {
    let mut lits: Vec<String> = ["a", "b", "a", "b", "A", "c-1", "x.y", "", "ab"].iter().map(|s| s.to_string()).collect();
    let wide = r.chance(1, 6);
    // very many next to each other
    let brood = wide && r.chance(1, 3);
    if brood {
        let at = ["n", "item-", "k.", ""][r.below(4)];
        lits.extend((0..150).map(|k| format!("{}{}", at, 100 + k)));
    }
    for _ in 0..if wide { 30 } else if r.chance(1, 3) { 2 } else { 0 } {
        let s = wild(r);
        if !s.starts_with(':') { lits.push(s) }
    }
    let deep = r.chance(1, 6);
    let abyss = deep && r.chance(1, 3);
    let params = ["x", "y", "id", "x1", "X", "a", "name-1", "p.q", "n3", "n4", "n5", "n6", "n7"];
    let mut params: Vec<String> = params[..if deep { 13 } else { 8 }].iter().map(|s| s.to_string()).collect();
    if r.chance(1, 4) {
        params.extend([":x", "", "\u{e9}\u{4e2d}", "a:b", "?", "*", "x.", "id-"].iter().map(|s| s.to_string()));
    }
    if abyss {
        params.extend((0..40).map(|i| format!("p{}", i)));
        params.push("long".repeat(r.range(10, 80)));
        lits.push("l".repeat(*r.pick(&[256usize, 600, 2049, 4097])));
    }
    let methods = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];
    let nm = if brood { 1 } else { r.range(1, 3) };
    let ms: Vec<&str> = (0..nm).map(|_| *r.pick(&methods)).collect();
    let mut ops = vec![];
    let mut shapes: Vec<(String, Vec<String>)> = vec![];
    let mut pats: Vec<Vec<String>> = vec![];
    let nreg = if brood || wide && r.chance(1, 3) { r.range(90, 125) } else if wide { r.range(20, 60) } else { r.range(3, 10) };
    let mut nr = 0;
    let total = nreg + if wide { r.range(30, 50) } else { r.range(12, 24) };
    for k in 0..total {
        let left = nreg - nr;
        if left > 0 && (k < 2 || r.chance(left * 2, total - k)) {
            // extend or vary an earlier pattern, or start a fresh one
            let mut pat: Vec<String> = if !brood && !pats.is_empty() && r.chance(2, 3) { r.pick(&pats).clone() } else { vec![] };
            if !pat.is_empty() && r.chance(1, 3) {
                let n = r.below(pat.len());
                pat.truncate(n);
            }
            let len = if brood { 1 + r.below(5) / 4 } else if abyss { r.range(12, 40) } else if deep { r.range(4, 12) } else if wide { r.range(1, 3) } else { r.range(1, 5) };
            while pat.len() < len {
                let s = if r.chance(2, if brood { 40 } else { 5 }) { format!(":{}", r.pick(&params)) }
                    else if brood && pat.is_empty() && r.chance(9, 10) { lits[lits.len() - 1 - nr].clone() }
                    else { r.pick(&lits).to_string() };
                pat.push(s);
            }
            if r.chance(1, if brood { 10 } else { 2 }) {
                let i = r.below(pat.len());
                pat[i] = if r.chance(1, 2) { format!(":{}", r.pick(&params)) } else { r.pick(&lits).to_string() };
            }
            let ps: Vec<&String> = pat.iter().filter(|s| s.starts_with(':')).collect();
            let mut u = ps.clone();
            u.sort();
            u.dedup();
            if u.len() != ps.len() {
                continue;
            }
            let m = *r.pick(&ms);
            let shape: Vec<String> = pat.iter().map(|s| if s.starts_with(':') { ":".into() } else { s.clone() }).collect();
            if shapes.contains(&(m.to_string(), shape.clone())) {
                if r.chance(1, 2) {
                    let jp = piece_list(&pat);
                    let abs = r.chance(3, 4) || pat[0].is_empty();
                    let g = if r.chance(1, 2) || !abs { 0 } else { r.below(pat.len()) };
                    ops.push(json!({"op": "dup", "m": m, "pat": jp, "g": g, "abs": abs}));
                }
                continue;
            }
            if r.chance(1, 25) && !pat[0].is_empty() {
                ops.push(json!({"op": "dup", "m": m, "pat": piece_list(&pat), "g": 0, "abs": false}));
            }
            shapes.push((m.to_string(), shape));
            let jp = piece_list(&pat);
            let g = if r.chance(1, 2) { 0 } else { r.below(pat.len()) };
            ops.push(json!({"op": "reg", "m": m, "pat": jp, "g": g}));
            pats.push(pat);
            nr += 1;
        } else {
            let mut path: Vec<String> = if !pats.is_empty() && r.chance(9, 10) { if brood && r.chance(1, 2) { pats[pats.len() - 1 - r.below(pats.len().min(20))].clone() } else { r.pick(&pats).clone() } } else { vec![r.pick(&lits).to_string()] };
            for s in path.iter_mut() {
                if s.starts_with(':') {
                    *s = if r.chance(1, 3) { wild(r) } else { r.pick(&["a", "b", "q", "v~1", "", "c-1", ":x", "%20"]).to_string() };
                } else if r.chance(1, 8) {
                    *s = if r.chance(1, 4) { wild(r) } else { r.pick(&lits).to_string() };
                }
            }
            if r.chance(1, 6) && path.len() > 1 {
                path.pop();
            }
            if r.chance(1, 6) {
                path.push(r.pick(&lits).to_string());
            }
            let m = if r.chance(5, 6) { *r.pick(&ms) } else { *r.pick(&methods) };
            let abs = !(r.chance(1, 15) && !path[0].is_empty());
            ops.push(json!({"op": "req", "m": m, "path": path, "abs": abs, "q": r.chance(1, 8)}));
        }
    }
    // one of them with every method there is
    if !pats.is_empty() && !wide && !abyss {
        let path: Vec<String> = r.pick(&pats).iter().map(|s| if s.starts_with(':') { "q".into() } else { s.clone() }).collect();
        for m in methods {
            ops.push(json!({"op": "req", "m": m, "path": path, "abs": true, "q": false}));
        }
    }
    ops
}

pub fn run(cfg: &Cfg) {
    bind_handlers();
    let mut all: Vec<Vec<Value>> = cfg.behaviours().into_iter().map(|b| b.as_array().unwrap().clone()).collect();
    let mut r = Rng::new(cfg.seed);
    for _ in 0..cfg.scale(120, 900) {
        all.push(random_history(&mut r));
    }
    let res = par(all, 8, |_, ops| run_history(ops));
    cfg.write_trace(&res.concat());
}
