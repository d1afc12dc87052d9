//! C03: groups, routes with filters, requests that make chosen filters answer.
use crate::util::*;
use serde_json::{json, Value};

const HANDLER0: usize = 60;

fn list(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}

pub fn bind_filters() {
    for n in 1..H.len() {
        bind(n, move |ctx| {
            let case = case_of(ctx);
            report(case, json!(n));
            ctx.resp_add_header("X-Mark".to_string(), n.to_string());
            let resp: Vec<usize> = ctx.req_header_get("X-Resp").unwrap_or_default()
                .split(',').filter_map(|s| s.parse().ok()).collect();
            if n >= HANDLER0 || resp.contains(&n) {
                ctx.resp_body(format!("r{}", n).into_bytes());
                ctx.response();
            }
        })
    }
}

fn run_history(ops: &[Value]) -> Vec<Value> {
    let srv = start(2, Some(60000), false);
    let mut out = vec![json!({"e": "case"})];
    let mut groups: Vec<(Vec<usize>, Option<starry::Extend>)> = vec![];
    let mut routes: Vec<(usize, Vec<usize>, String, String, String)> = vec![];
    let mut conn: Option<Conn> = None;
    for o in ops {
        match o["op"].as_str().unwrap() {
            "group" => {
                let f = list(&o["f"]);
                let lim = o["lim"].as_bool().unwrap_or(false);
                let e = if f.is_empty() && !lim { None } else { Some(ext_lim(&f, lim)) };
                groups.push((f, e))
            }
            "route" => {
                let g = o["g"].as_u64().unwrap() as usize;
                let own = list(&o["f"]);
                let k = routes.len() + 1;
                let gext = groups[g - 1].1.clone();
                let lim = o["lim"].as_bool().unwrap_or(false);
                let e = if o["wf"].as_bool().unwrap() || lim { Some(ext_lim(&own, lim)) } else { None };
                let m = o["m"].as_str().unwrap().to_string();
                // siblings, children and alternatives of each other: a mixed-up node would show
                // or the same resource with another method and other filters
                let twin = o["twin"].as_u64().filter(|t| {
                    let t = *t as usize;
                    t >= 1 && t < k && routes[t - 1].0 == g
                        && !routes.iter().any(|x| x.0 == g && x.2 == m && x.4 == routes[t - 1].4)
                });
                let p = if let Some(t) = twin { routes[t as usize - 1].4.clone() } else { match k % 3 { 0 => format!("/r{}", k), 1 => format!("/r{}/:v", k - k % 3), _ => format!("/:w/k{}", k) } };
                route(&srv.server, &format!("/g{}", g), gext, &m, &p, H[HANDLER0 + k], e);
                routes.push((g, own, m, format!("/g{}{}", g, p.replace(":v", "vv").replace(":w", "ww")), p));
            }
            _ => {
                let r = o["r"].as_u64().unwrap() as usize;
                let resp = list(&o["resp"]);
                let keep = o["keep"].as_bool().unwrap();
                let (g, own, m, path, _) = &routes[r - 1];
                let (case, seen) = sink();
                let req = format!("{} {} HTTP/1.1\r\nHost: h\r\n{}X-Case: {}\r\nX-Resp: {}\r\n\r\n", m, path,
                                  if keep { "Connection: keep-alive\r\n" } else { "" }, case,
                                  resp.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                let mut c = conn.take().unwrap_or_else(|| Conn::open(srv.port));
                c.send(req.as_bytes());
                let a = c.read(false);
                let mut extra = 0;
                if keep {
                    // a second response would arrive right behind the first
                    extra = c.pending();
                    if a.end == "ok" && extra == 0 {
                        conn = Some(c);
                    }
                } else if a.end == "ok" {
                    c.wait_end(patience());
                    extra = c.pending();
                }
                let marks: Vec<i64> = a.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(b"x-mark"))
                    .map(|(_, v)| String::from_utf8_lossy(v).parse().unwrap_or(-1)).collect();
                let ran = lock(&seen).clone();
                out.push(json!({"e": "req", "own": own, "grp": groups[g - 1].0, "hd": HANDLER0 + r, "resp": resp, "keep": keep,
                                "ran": ran, "end": a.end, "status": a.status, "marks": marks, "extra": extra,
                                "body": String::from_utf8_lossy(&a.body)}));
                unsink(case);
            }
        }
    }
    out
}

pub fn ext(f: &[usize]) -> starry::Extend {
    starry::Extend::e1(f.iter().map(|n| H[*n]).collect())
}

/// Filters, with or without a limit that lets every request pass.
fn ext_lim(f: &[usize], lim: bool) -> starry::Extend {
    let filters: Vec<fn(&mut starry::Context)> = f.iter().map(|n| H[*n]).collect();
    match (lim, filters.is_empty()) {
        (false, _) => starry::Extend::e1(filters),
        (true, true) => starry::Extend::e2(starry::Limit::new(0, 1, 0)),
        (true, false) => starry::Extend::e3(filters, starry::Limit::new(0, 1, 0)),
    }
}

fn random_history(r: &mut Rng) -> Vec<Value> {
    let methods = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];
    let long = r.chance(1, 5);
    let nf = if long { r.range(9, HANDLER0 - 1) } else { r.range(2, 8) };
    let fs = |r: &mut Rng, max: usize| -> Vec<usize> { let n = r.below(max + 1); (0..n).map(|_| r.range(1, nf)).collect() };
    let mut ops = vec![];
    let ng = r.range(1, 4);
    let limits = r.chance(1, 4);
    for _ in 0..ng {
        let f = fs(r, if long { 40 } else { 5 });
        ops.push(json!({"op": "group", "f": f, "lim": limits && r.chance(1, 3)}));
    }
    let nr = if r.chance(1, 8) { r.range(13, 30) } else { r.range(2, 12) };
    for k in 1..=nr {
        let f = fs(r, if long { 50 } else { 6 });
        let wf = !f.is_empty() || r.chance(1, 2);
        ops.push(json!({"op": "route", "g": r.range(1, ng), "m": *r.pick(&methods), "wf": wf, "f": f, "lim": limits && r.chance(1, 3),
                        "twin": if r.chance(1, 3) { r.below(k) } else { 0 }}));
    }
    for _ in 0..r.range(10, 24) {
        let resp: Vec<usize> = match r.below(3) { 0 => vec![], 1 => vec![r.range(1, nf)], _ => { let n = if long { 40 } else { 3 }; (1..=nf).filter(|_| r.chance(1, n)).collect() } };
        ops.push(json!({"op": "req", "r": r.range(1, nr), "resp": resp, "keep": r.chance(1, 2)}));
    }
    ops
}

pub fn run(cfg: &Cfg) {
    bind_filters();
    let mut all: Vec<Vec<Value>> = cfg.behaviours().into_iter().map(|b| b.as_array().unwrap().clone()).collect();
    let mut r = Rng::new(cfg.seed);
    for _ in 0..cfg.scale(80, 600) {
        all.push(random_history(&mut r));
    }
    let res = par(all, 8, |_, ops| run_history(ops));
    cfg.write_trace(&res.concat());
}
