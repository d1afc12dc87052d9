//! C04: bursts and trickles of requests to limited routes; when each was sent and when its filters or handler started.
use crate::util::*;
use serde_json::{json, Value};
use starry::{Extend, Limit};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Asked {
    route: usize,
    sent: Instant,
    answered: bool,
    key: usize,
}

/// Many requests under a limit that lets many pass at once.
fn wide(r: &mut Rng) -> Value {
    let count = *r.pick(&[9, 12, 17, 24, 33, 40, 65]);
    json!({"kind": r.pick(&["own", "filters", "group", "pair", "inner", "both"]), "section": r.pick(&[100, 200, 300]), "count": count,
           "interval": r.pick(&[0, 0, 1, 2]), "idle": r.pick(&[0, 150]), "keep": r.chance(1, 2), "lanes": r.range(8, 20),
           "gaps": (0..count + r.range(4, count + 10)).map(|_| *r.pick(&[0, 0, 0, 0, 0, 1, 3])).collect::<Vec<_>>()})
}

fn random(r: &mut Rng) -> Value {
    json!({"kind": r.pick(&["own", "filters", "group", "pair", "inner", "both"]), "section": r.pick(&[30, 60, 120, 200, 300, 0, -5]), "count": r.range(1, 5),
           "interval": r.pick(&[0, -1, 5, 15, 30, 60]), "idle": r.pick(&[0, 50, 150, 350]), "keep": r.chance(1, 2), "lanes": r.range(1, 10),
           "gaps": (0..r.range(3, 12)).map(|_| *r.pick(&[0, 0, 0, 2, 10, 30, 80, 120])).collect::<Vec<_>>()})
}

/// One scenario on its own server; `lane` keeps its handler slots apart from those of scenarios at the same time.
fn scenario(d: &Value, lane: usize) -> Vec<Value> {
    let n = |k: &str| d[k].as_i64().unwrap_or(0);
    let kind = d["kind"].as_str().unwrap_or("own");
    let (section, count, interval) = (n("section"), n("count").max(1) as usize, n("interval"));
    let seen: Arc<Mutex<Vec<(usize, bool, Instant)>>> = Arc::new(Mutex::new(vec![]));
    let slots = lane * 4;
    for (k, handler) in [(1usize, true), (2, false)] {
        let s = seen.clone();
        bind(slots + k, move |ctx| {
            let now = Instant::now();
            let key = case_of(ctx) as usize;
            lock(&s).push((key, handler, now));
            if handler {
                ctx.response()
            }
        });
    }
    let (handler, filter) = (H[slots + 1], H[slots + 2]);
    let srv = start(24, Some(60000), false);
    let limit = || Limit::new(section, count, interval);
    let severe = || Limit::new(2500, 1, 0);
    // routes 0.. are limited by the limit of the scenario, the last one by none
    let mut limited: Vec<&str> = vec![];
    let mut free: Vec<&str> = vec!["/free"];
    route(&srv.server, "", None, "GET", "/free", handler, None);
    match kind {
        "own" => { route(&srv.server, "", None, "GET", "/l/a", handler, Some(Extend::e2(limit()))); limited.push("/l/a") }
        "filters" => { route(&srv.server, "", None, "GET", "/l/a", handler, Some(Extend::e3(vec![filter, filter], limit()))); limited.push("/l/a") }
        "group" => { route(&srv.server, "/g", Some(Extend::e3(vec![filter], limit())), "GET", "/a", handler, None); limited.push("/g/a") }
        "inner" => { route(&srv.server, "/g", Some(Extend::e2(limit())), "GET", "/a", handler, Some(Extend::e1(vec![filter]))); limited.push("/g/a") }
        "pair" => {
            let e = Extend::e2(limit());
            let r = srv.server.router_wf("/g", e);
            r.get("/a", handler);
            r.get_wf("/b", handler, Extend::e1(vec![filter]));
            limited.extend(["/g/a", "/g/b"]);
        }
        _ => { // the route's own limit stands in place of that of its group
            let r = srv.server.router_wf("/g", Extend::e2(severe()));
            r.get_wf("/own", handler, Extend::e2(limit()));
            r.get_wf("/wide", handler, Extend::e2(Limit::new(1, 50, 0)));
            limited.push("/g/own");
            free.push("/g/wide");
        }
    }
    std::thread::sleep(Duration::from_millis(n("idle").max(0) as u64));
    // the requests, dealt to the connections in turn
    let gaps: Vec<u64> = d["gaps"].as_array().map(|g| g.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default();
    let lanes = n("lanes").max(1) as usize;
    let keep = d["keep"] == true;
    let mut at = 0;
    let mut plans: Vec<Vec<(usize, usize, u64)>> = vec![vec![]; lanes];
    for (i, g) in gaps.iter().enumerate() {
        at += g;
        plans[i % lanes].push((i + 1, (i / 2) % limited.len(), at));
    }
    let begin = Instant::now();
    let epoch = begin - Duration::from_secs(1);
    let asked: Arc<Mutex<Vec<Asked>>> = Arc::new(Mutex::new(vec![]));
    let one = |key: usize, route: usize, path: &str, conn: &mut Option<Conn>, keep: bool| {
        let mut c = conn.take().unwrap_or_else(|| Conn::open(srv.port));
        let req = format!("GET {} HTTP/1.1\r\nHost: h\r\nX-Case: {}\r\n{}\r\n", path, key, if keep { "Connection: keep-alive\r\n" } else { "" });
        let sent = Instant::now();
        c.send(req.as_bytes());
        let r = c.read(!keep);
        lock(&asked).push(Asked { route, sent, answered: r.end == "ok" && r.status == 200, key });
        if keep && r.end == "ok" { *conn = Some(c) }
    };
    std::thread::scope(|s| {
        for plan in plans.iter().filter(|p| !p.is_empty()) {
            let (one, limited) = (&one, &limited);
            s.spawn(move || {
                let mut conn = None;
                for (key, rt, at) in plan {
                    let due = begin + Duration::from_millis(*at);
                    if let Some(d) = due.checked_duration_since(Instant::now()) { std::thread::sleep(d) }
                    one(*key, *rt, limited[*rt], &mut conn, keep);
                }
            });
        }
        let (one, free) = (&one, &free);
        s.spawn(move || {
            std::thread::sleep(Duration::from_millis(20));
            for k in 0..4 {
                for (f, path) in free.iter().enumerate() {
                    one(1000 + k * 10 + f, 100 + f, path, &mut None, false);
                }
            }
        });
    });
    let (seen, asked) = (lock(&seen).clone(), lock(&asked).clone());
    let us = |t: Instant| t.duration_since(epoch).as_micros() as i64;
    let show = |a: &Asked| {
        let mine: Vec<_> = seen.iter().filter(|(k, _, _)| *k == a.key).collect();
        let start = mine.iter().map(|x| x.2).min().map(us).unwrap_or(0);
        json!({"sent": us(a.sent), "start": start, "ran": mine.iter().filter(|x| x.1).count(), "answered": a.answered})
    };
    let mut out = vec![json!({"e": "case", "p": "C04", "d": d})];
    for rt in 0..limited.len() {
        out.push(json!({"e": "limited", "section": section, "count": count, "interval": interval, "reqs": asked.iter().filter(|a| a.route == rt).map(show).collect::<Vec<_>>()}));
    }
    out.push(json!({"e": "free", "bound": 3_000_000, "reqs": asked.iter().filter(|a| a.route >= 100).map(show).collect::<Vec<_>>()}));
    out
}

fn late(out: &[Value]) -> bool {
    out.iter().any(|e| e["e"] == "free" && e["reqs"].as_array().unwrap().iter().any(|q| q["start"].as_i64() > Some(q["sent"].as_i64().unwrap_or(0) + 2_500_000)))
}

pub fn run(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x4);
    let mut ds: Vec<Value> = cfg.behaviours().into_iter().flat_map(|b| b.as_array().cloned().unwrap_or_default()).collect();
    for _ in 0..cfg.scale(12, 120) {
        ds.push(random(&mut r));
    }
    for _ in 0..cfg.scale(6, 60) {
        ds.push(wide(&mut r));
    }
    let lanes = 3;
    let mut work = vec![vec![]; lanes];
    ds.into_iter().enumerate().for_each(|(i, d)| work[i % lanes].push(d));
    let out = par(work, lanes, |lane, ds| {
        ds.iter().flat_map(|d| {
            // waiting long for a route without a limit may be the machine's fault
            (0..3).map(|_| scenario(d, lane)).find(|o| !late(o)).unwrap_or_else(|| scenario(d, lane))
        }).collect::<Vec<_>>()
    });
    cfg.write_trace(&out.concat());
}
