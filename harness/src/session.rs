//! C11: keep-alive connections over time; C16: many connections at once, with panicking handlers.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

static T0: OnceLock<Instant> = OnceLock::new();
fn ms() -> i64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as i64
}

/// Handlers that wait until they are let go; `slot` is bound to them.
struct Gate {
    open: Arc<Mutex<bool>>,
    inside: Arc<AtomicUsize>,
}
fn gate(slot: usize) -> Gate {
    let g = Gate { open: Arc::new(Mutex::new(false)), inside: Arc::new(AtomicUsize::new(0)) };
    let (o, i) = (g.open.clone(), g.inside.clone());
    bind(slot, move |ctx| {
        i.fetch_add(1, SeqCst);
        let until = Instant::now() + Duration::from_secs(30);
        while !*lock(&o) && Instant::now() < until {
            std::thread::sleep(Duration::from_millis(1));
        }
        ctx.resp_body(b"gate".to_vec());
        ctx.response();
        i.fetch_sub(1, SeqCst);
    });
    g
}
/// How many of `n` (and a few more) waiting handlers run at once within the patience.
fn fill(port: u16, g: &Gate, n: usize, more: usize) -> usize {
    // handlers of an earlier turn may not have returned yet
    let until = Instant::now() + Duration::from_secs(5);
    while g.inside.load(SeqCst) > 0 && Instant::now() < until {
        std::thread::sleep(Duration::from_millis(1));
    }
    let exact = more > 0 && g.inside.load(SeqCst) == 0;
    *lock(&g.open) = false;
    let mut conns: Vec<Conn> = (0..n + more).map(|_| {
        let mut c = Conn::open(port);
        c.send(b"GET /gate HTTP/1.1\r\nHost: h\r\n\r\n");
        c
    }).collect();
    let until = Instant::now() + patience().min(Duration::from_secs(8));
    while g.inside.load(SeqCst) < n && Instant::now() < until {
        std::thread::sleep(Duration::from_millis(1));
    }
    if exact {
        std::thread::sleep(Duration::from_millis(10));
    }
    let r = if exact { g.inside.load(SeqCst) } else { g.inside.load(SeqCst).min(n) };
    if r < n {
        missing()
    }
    *lock(&g.open) = true;
    for c in conns.iter_mut() {
        c.timeout = Duration::from_secs(3);
        c.read(true);
    }
    r
}

// ---------------------------------------------------------------- C11
struct Step {
    gap: i64,
    dur: i64,
}
struct Script {
    steps: Vec<Step>,
    how: String,
}
const POOL: usize = 2;

fn one(port: u16, k: i64, s: &Script, seen: &Mutex<HashMap<u64, (i64, i64)>>) -> Vec<Value> {
    static ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    let mut out = vec![json!({"e": "conn", "k": k})];
    let mut c = Conn::open(port);
    c.timeout = Duration::from_secs(8).min(patience());
    let mut ok = true;
    for (i, st) in s.steps.iter().enumerate() {
        if i > 0 {
            std::thread::sleep(Duration::from_millis((st.gap * k / 10) as u64));
        }
        let id = ID.fetch_add(1, SeqCst);
        let sent = ms();
        c.send(format!("GET /w/{} HTTP/1.1\r\nHost: h\r\nX-Case: {}\r\nConnection: keep-alive\r\n\r\n", st.dur * k / 10, id).as_bytes());
        let r = c.read(false);
        let ans = ms();
        ok = r.end == "ok" && r.status == 200;
        let (hs, he) = lock(seen).remove(&id).unwrap_or((-1, -1));
        out.push(json!({"e": "req", "sent": sent, "hs": hs, "he": he, "ans": ans, "ok": ok}));
        if !ok {
            break;
        }
    }
    let mut refm = ms();
    let (mut obs, mut t) = ("eof".to_string(), refm);
    if ok {
        match s.how.as_str() {
            "close" => { c.send(b"GET /w/0 HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n"); c.read(false); }
            "bad" => { c.send(b"GRT /w/0 HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n"); c.read(false); }
            "panic" => { c.send(b"GET /panic HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n"); }
            _ => {}
        }
        refm = ms();
        if s.how == "leave" {
            drop(c);
        } else {
            obs = c.wait_end(Duration::from_millis(k as u64 + 2500));
            t = ms();
        }
    }
    out.push(json!({"e": "end", "how": s.how, "obs": obs, "t": t, "ref": refm}));
    out
}

/// The wall clock, which the server uses, against the harness's clock.
fn skew() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as i64).unwrap_or(0) - ms()
}
/// Something that may be due to a thread that was not scheduled; such a case is tried again.
fn suspicious(k: i64, v: &[Value]) -> bool {
    let ans = v.iter().filter(|e| e["e"] == "req").filter_map(|e| e["ans"].as_i64()).max().unwrap_or(0);
    v.iter().any(|e| e["e"] == "req" && e["ok"] == false)
        || v.iter().any(|e| e["e"] == "end" && e["how"] != "leave"
            && (e["obs"] == "timeout" || e["t"].as_i64() > Some(if e["how"] == "idle" { ans + k } else { e["ref"].as_i64().unwrap() } + 350)))
}

pub fn keepalive(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x11);
    let mut cases: Vec<(i64, Vec<Script>)> = vec![];
    for b in cfg.behaviours() {
        let scripts = b["conns"].as_array().cloned().unwrap_or_default().iter().map(|c| Script {
            steps: c["steps"].as_array().cloned().unwrap_or_default().iter()
                .map(|s| Step { gap: s["gap"].as_i64().unwrap_or(0), dur: s["dur"].as_i64().unwrap_or(0) }).collect(),
            how: c["how"].as_str().unwrap_or("idle").to_string() }).collect();
        cases.push((b["k"].as_i64().unwrap_or(300), scripts));
    }
    for _ in 0..cfg.scale(50, 300) {
        let k = *r.pick(&[250, 300, 400]);
        let n = r.range(1, 2);
        let scripts = (0..n).map(|_| Script {
            steps: (0..r.range(1, 4)).map(|_| Step { gap: *r.pick(&[0, 3, 4, 5]), dur: *r.pick(&[0, 0, 0, 3, 12]) }).collect(),
            how: r.pick(&["idle", "idle", "idle", "close", "bad", "panic", "leave"]).to_string() }).collect();
        cases.push((k, scripts));
    }
    // a very short and a long timeout
    let calm = |gaps: &[i64], how: &str| Script { steps: gaps.iter().map(|g| Step { gap: *g, dur: 0 }).collect(), how: how.to_string() };
    cases.push((20, vec![calm(&[0], "idle"), calm(&[0], "idle")]));
    cases.push((6000, vec![calm(&[0, 9], "leave"), calm(&[0], "idle")]));
    cases.sort_by_key(|c| if c.0 > 1000 { 0 } else { c.0 });
    ms();
    let seen: Arc<Mutex<HashMap<u64, (i64, i64)>>> = Arc::new(Mutex::new(HashMap::new()));
    let sn = seen.clone();
    bind(1, move |ctx| {
        let hs = ms();
        let id = case_of(ctx);
        let d: u64 = ctx.req_field("d").and_then(|s| s.parse().ok()).unwrap_or(0);
        std::thread::sleep(Duration::from_millis(d));
        lock(&sn).insert(id, (hs, ms()));
        ctx.resp_body(b"w".to_vec());
        ctx.response();
    });
    bind(2, |_| panic!("a handler"));
    let out: Mutex<Vec<Vec<Value>>> = Mutex::new(vec![vec![]; cases.len()]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for lane in 0..4 {
            let (out, next, cases, seen) = (&out, &next, &cases, &seen);
            s.spawn(move || {
                let slot = 3 + lane;
                let g = gate(slot);
                let mut srvs: HashMap<i64, Srv> = HashMap::new();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= cases.len() {
                        return;
                    }
                    let (k, scripts) = &cases[i];
                    let srv = srvs.entry(*k).or_insert_with(|| {
                        let srv = start(POOL, Some(*k), false);
                        route(&srv.server, "", None, "GET", "/w/:d", H[1], None);
                        route(&srv.server, "", None, "GET", "/panic", H[2], None);
                        route(&srv.server, "", None, "GET", "/gate", H[slot], None);
                        srv
                    });
                    let mut v = vec![];
                    for _ in 0..3 {
                        let clocks = skew();
                        v = std::thread::scope(|t| {
                            let hs: Vec<_> = scripts.iter().map(|x| t.spawn(|| one(srv.port, *k, x, seen))).collect();
                            hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect::<Vec<Value>>()
                        });
                        if !suspicious(*k, &v) && (skew() - clocks).abs() <= 1 {
                            break;
                        }
                    }
                    let started = fill(srv.port, &g, POOL, 0);
                    v.push(json!({"e": "free", "pool": POOL, "started": started}));
                    v.insert(0, json!({"e": "case", "p": "C11"}));
                    out.lock().unwrap()[i] = v;
                }
            });
        }
    });
    let mut out = out.into_inner().unwrap().concat();
    out.extend(near(&mut r, cfg.scale(12, 80), &seen));
    cfg.write_trace(&out);
}

/// Requests whose handlers start a few milliseconds before the deadline, with more threads than processors
fn near(r: &mut Rng, rounds: usize, seen: &Mutex<HashMap<u64, (i64, i64)>>) -> Vec<Value> {
    const WIDE: usize = 24;
    let k = 200;
    let srv = start(WIDE, Some(k), false);
    route(&srv.server, "", None, "GET", "/w/:d", H[1], None);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut out = vec![];
    std::thread::scope(|s| {
        for _ in 0..40 { s.spawn(|| while !stop.load(SeqCst) { std::hint::spin_loop() }); }
        for _ in 0..rounds {
            let befores: Vec<i64> = (0..WIDE).map(|_| r.range(5, 20) as i64).collect();
            let mut v = vec![];
            for _ in 0..2 {
                let clocks = skew();
                v = std::thread::scope(|t| {
                    let hs: Vec<_> = befores.iter().map(|b| { let srv = &srv; t.spawn(move || close_call(srv.port, k, *b, seen)) }).collect();
                    hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect::<Vec<Value>>()
                });
                if (skew() - clocks).abs() <= 1 { break }
                v.clear();
            }
            out.push(json!({"e": "case", "p": "C11"}));
            out.append(&mut v);
        }
        stop.store(true, SeqCst);
    });
    out
}
fn close_call(port: u16, k: i64, before: i64, seen: &Mutex<HashMap<u64, (i64, i64)>>) -> Vec<Value> {
    static ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1 << 40);
    let mut out = vec![json!({"e": "conn", "k": k})];
    let mut c = Conn::open(port);
    c.timeout = Duration::from_secs(8).min(patience());
    for i in 0..3 {
        let id = ID.fetch_add(1, SeqCst);
        let sent = ms();
        c.send(format!("GET /w/{} HTTP/1.1\r\nHost: h\r\nX-Case: {}\r\nConnection: keep-alive\r\n\r\n", if i == 0 { 0 } else { 25 }, id).as_bytes());
        let r = c.read(false);
        let ans = ms();
        let ok = r.end == "ok" && r.status == 200;
        let (hs, he) = lock(seen).remove(&id).unwrap_or((-1, -1));
        out.push(json!({"e": "near", "sent": sent, "hs": hs, "he": he, "ans": ans, "ok": ok}));
        if !ok { break }
        let at = he + k - before;
        while ms() < at { std::thread::sleep(Duration::from_micros(200)) }
    }
    out.push(json!({"e": "end", "how": "leave", "obs": "eof", "t": 0, "ref": 0}));
    out
}

// ---------------------------------------------------------------- C16
pub fn concurrent(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x16);
    let mut cases: Vec<(usize, Vec<Vec<String>>)> = vec![];
    for b in cfg.behaviours() {
        let conns = b["conns"].as_array().cloned().unwrap_or_default().iter().map(|c|
            c.as_array().cloned().unwrap_or_default().iter().map(|k| k.as_str().unwrap_or("keep").to_string()).collect()).collect();
        cases.push((b["workers"].as_u64().unwrap_or(2) as usize, conns));
    }
    for i in 0..cfg.scale(150, 1000) {
        let many = i % 6 == 0;
        let n = if many { r.range(20, 60) } else { r.range(2, 14) };
        let conns = (0..n).map(|_| {
            let mut s = vec![];
            for i in 0..r.range(1, if many { 6 } else { 4 }) {
                if r.chance(1, 4) {
                    s.push("panic".to_string());
                    break;
                }
                let _ = i;
                s.push("keep".to_string());
            }
            if r.chance(1, 3) && s.last().map(|x| x == "keep").unwrap_or(false) {
                let n = s.len();
                s[n - 1] = "close".into();
            }
            s
        }).collect();
        // mostly few workers, sometimes many
        let w = if i % 50 == 7 { *r.pick(&[24, 48, 80]) } else { r.range(1, 5) };
        cases.push((w, conns));
    }
    let runs: Arc<Mutex<HashMap<String, usize>>> = Arc::new(Mutex::new(HashMap::new()));
    let rn = runs.clone();
    bind(1, move |ctx| {
        let h = ctx.req_header_get("X-Tok").unwrap_or_default();
        // requests for the same path differ in their query, those with the same query in their header and body only
        let q = ctx.req_param("t").unwrap_or_default();
        let tok = ctx.req_field("t").unwrap_or_else(|| if q.is_empty() { h.clone() } else { q.clone() });
        *lock(&rn).entry(tok.clone()).or_insert(0) += 1;
        let ck = ctx.req_cookie_get("t").map(|c| c.to_string()).unwrap_or_default();
        let wait = hash(&tok);
        let f = ctx.req_form("t").ok().flatten().unwrap_or_default();
        ctx.resp_add_header_str("X-Tok", &h);
        ctx.resp_add_header_str("X-Query", &q);
        ctx.resp_add_header_str("X-Cookie", ck.trim_start_matches("t="));
        ctx.resp_add_header_str("X-Form", &f);
        ctx.resp_add_header(format!("X-{}", tok), tok.clone());
        ctx.resp_add_cookie(starry::header::Cookie::new("c".to_string(), tok.clone()));
        ctx.resp_status(starry::Status::from_code(ANSWERS[wait as usize % ANSWERS.len()]).unwrap());
        match wait % 5 {
            0 => std::thread::sleep(Duration::from_micros(wait % 1500)),
            1 => std::thread::yield_now(),
            _ => {}
        }
        if ctx.req_have_param("panic") {
            if wait % 2 == 0 {
                ctx.resp_add_header_str("X-Leak", "1");
            }
            panic!("a handler");
        }
        ctx.resp_body(tok.into_bytes());
        if wait % 7 == 0 {
            std::thread::sleep(Duration::from_micros(wait % 900));
        }
        ctx.response();
    });
    let out: Mutex<Vec<Vec<Value>>> = Mutex::new(vec![vec![]; cases.len()]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for lane in 0..3 {
            let (out, next, cases, runs) = (&out, &next, &cases, &runs);
            s.spawn(move || {
                let slot = 3 + lane;
                let g = gate(slot);
                let mut srvs: HashMap<usize, Srv> = HashMap::new();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= cases.len() {
                        return;
                    }
                    let (w, conns) = &cases[i];
                    let srv = srvs.entry(*w).or_insert_with(|| {
                        let srv = start(*w, Some(20000), false);
                        route(&srv.server, "", None, "POST", "/e/:t", H[1], None);
                        route(&srv.server, "", None, "POST", "/e", H[1], None);
                        route(&srv.server, "", None, "GET", "/gate", H[slot], None);
                        srv
                    });
                    let port = srv.port;
                    let mut v = vec![json!({"e": "case", "p": "C16"})];
                    let parts: Vec<Vec<Value>> = std::thread::scope(|t| {
                        let hs: Vec<_> = conns.iter().enumerate().map(|(c, x)| t.spawn(move || talk(port, i, c, x, runs))).collect();
                        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
                    });
                    v.extend(parts.concat());
                    let started = fill(port, &g, *w, 2);
                    v.push(json!({"e": "full", "pool": w, "started": started}));
                    out.lock().unwrap()[i] = v;
                }
            });
        }
    });
    cfg.write_trace(&out.into_inner().unwrap().concat());
}

/// The statuses a handler of this part may choose, by the request's token.
const ANSWERS: [u16; 4] = [200, 201, 202, 404];
fn hash(tok: &str) -> u64 {
    tok.bytes().fold(0, |h, b| h.wrapping_mul(31).wrapping_add(b as u64))
}

fn talk(port: u16, case: usize, conn: usize, script: &[String], runs: &Mutex<HashMap<String, usize>>) -> Vec<Value> {
    let mut out = vec![json!({"e": "conn"})];
    let mut c = Conn::open(port);
    for (k, kind) in script.iter().enumerate() {
        let tok = format!("{}-{}-{}", case, conn, k);
        let body = format!("t={}&z=1", tok);
        let how = (case + conn / 2) % 3;
        let target = match how { 0 => format!("/e/{}?t={}", tok, tok), 1 => format!("/e?t={}", tok), _ => "/e?same".to_string() };
        let req = format!("POST {}{} HTTP/1.1\r\nHost: h\r\nX-Tok: {}\r\nCookie: a=b; t={}\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: {}\r\n{}\r\n{}",
            target, if kind == "panic" { "&panic" } else { "" }, tok, tok, body.len(),
            if kind == "close" { "" } else { "Connection: keep-alive\r\n" }, body);
        if (case + conn + k) % 3 == 0 {
            let at = req.len() / 2;
            c.send(&req.as_bytes()[..at]);
            std::thread::sleep(Duration::from_micros(300));
            c.send(&req.as_bytes()[at..]);
        } else {
            c.send(req.as_bytes());
        }
        let r = c.read(false);
        let g = |n: &str| String::from_utf8_lossy(&r.header(n).unwrap_or_default()).to_string();
        let query = g("X-Query");
        let query = if how == 2 && query.is_empty() { tok.clone() } else { query };
        let cookie = g("Set-Cookie");
        let cookie = cookie.split(';').next().unwrap_or("").trim_start_matches("c=").to_string();
        let echo = vec![String::from_utf8_lossy(&r.body).to_string(), g("X-Tok"), query, g("X-Cookie"), g("X-Form"), g(&format!("X-{}", tok)), cookie];
        // reported as 200 exactly when it is the one its handler chose
        let status = if r.status == ANSWERS[hash(&tok) as usize % ANSWERS.len()] as i64 { 200 } else { 999 };
        let ours = ["X-TOK", "X-QUERY", "X-COOKIE", "X-FORM"];
        let extra = r.headers.iter().filter(|(n, _)| { let n = String::from_utf8_lossy(n).to_uppercase(); n.starts_with("X-") && !ours.contains(&n.as_str()) && n != format!("X-{}", tok) }).count() > 0
            || r.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(b"set-cookie")).count() > 1;
        let closed = if kind == "keep" || r.end != "ok" { r.end.clone() } else { c.wait_end(patience()) };
        let n = lock(runs).get(&tok).cloned().unwrap_or(0);
        out.push(json!({"e": "req", "tok": tok, "kind": kind, "end": r.end, "status": status, "echo": echo, "extra": extra, "closed": closed, "runs": n}));
        if r.end != "ok" {
            break;
        }
    }
    out
}
