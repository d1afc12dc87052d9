//! C26: servers, clones and listeners; what listening comes to, and who answers what.
use crate::resp::unpacked;
use crate::util::*;
use serde_json::{json, Value};
use starry::HttpServer;
use std::collections::{BTreeSet, HashMap};
use std::net::{SocketAddr, TcpListener};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

const GATE: usize = 127;
const STILL: usize = 126;
const WORK: usize = 125;
type Job = Box<dyn FnOnce() + Send>;
fn jobs() -> &'static Mutex<HashMap<u64, Job>> {
    static G: OnceLock<Mutex<HashMap<u64, Job>>> = OnceLock::new();
    G.get_or_init(Default::default)
}
type Gate = Arc<(Mutex<bool>, Condvar)>;
fn gates() -> &'static Mutex<HashMap<u64, Gate>> {
    static G: OnceLock<Mutex<HashMap<u64, Gate>>> = OnceLock::new();
    G.get_or_init(Default::default)
}

/// The sockets of this process.
fn sockets() -> BTreeSet<(i32, String)> {
    std::fs::read_dir("/proc/self/fd").map(|d| d.flatten().filter_map(|e| {
        let to = std::fs::read_link(e.path()).ok()?.to_string_lossy().strip_prefix("socket:[")?.trim_end_matches(']').to_string();
        Some((e.file_name().to_string_lossy().parse().ok()?, to))
    }).collect()).unwrap_or_default()
}
/// The port one of these sockets listens on at 127.0.0.1.
fn listening(own: &[(i32, String)]) -> Option<u16> {
    if own.is_empty() { return None }
    let Ok(t) = std::fs::read_to_string("/proc/self/net/tcp") else { tool_error("no /proc/self/net/tcp") };
    t.lines().find_map(|l| {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, p) = f.get(1)?.split_once(':')?;
        if a == "0100007F" && f.get(3) == Some(&"0A") && own.iter().any(|s| s.1 == f[9]) { u16::from_str_radix(p, 16).ok() } else { None }
    })
}
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// Three ports outside of those the system hands out.
fn ports(r: &mut Rng) -> Vec<u16> {
    let mut v: Vec<u16> = vec![];
    for _ in 0..1000 {
        let p = 10_000 + ((r.next() ^ std::process::id() as u64 * 2654435761) % 20_000) as u16;
        if !v.contains(&p) && TcpListener::bind(("127.0.0.1", p)).is_ok() { v.push(p) }
        if v.len() == 3 { return v }
    }
    tool_error("no free ports")
}

struct Handle { server: HttpServer, root: usize, size: usize, keep: i64 }
struct Listener { port: u16, size: usize, keep: i64, held: usize }

fn listen(h: &HttpServer, how: &str, addrs: &[SocketAddr], r: &mut Rng, watch: impl Fn() -> Option<u16>) -> (&'static str, u16, usize) {
    let (s, how, addrs) = (h.clone(), how.to_string(), addrs.to_vec());
    let text = r.pick(&["nonsense", "127.0.0.1", "127.0.0.1:99999", "", ":x", "127.0.0.1:80:80", "127.0.0.1:-1"]).to_string();
    let before = threads();
    let (tx, rx) = std::sync::mpsc::channel();
    let t = std::thread::spawn(move || {
        let x = catch_unwind(AssertUnwindSafe(|| match how.as_str() {
            "text" => s.listener(addrs[0].to_string()),
            "pair" => s.listener((addrs[0].ip(), addrs[0].port())),
            "bad" => s.listener(text.as_str()),
            _ => s.listener(&addrs[..]),
        }));
        let _ = tx.send(match x { Ok(Ok(())) => "returned", Ok(Err(_)) => "error", Err(_) => "panic" });
    });
    let end = Instant::now() + patience();
    loop {
        if let Ok(x) = rx.recv_timeout(Duration::from_micros(500)) {
            let _ = t.join();
            // nothing stays behind
            let mut left = threads().saturating_sub(before);
            while left > 0 && Instant::now() < end { std::thread::sleep(Duration::from_millis(1)); left = threads().saturating_sub(before) }
            return (x, 0, left);
        }
        if let Some(p) = watch() { return ("listening", p, 0) }
        if Instant::now() > end { missing(); return ("nothing", 0, 0) }
    }
}

fn ask(port: u16, path: &str, gzip: bool) -> Value {
    ask_on(Conn::open(port), path, gzip)
}
fn ask_on(mut c: Conn, path: &str, gzip: bool) -> Value {
    let (case, seen) = sink();
    c.send(format!("GET {} HTTP/1.1\r\nHost: h\r\nX-Case: {}\r\n{}\r\n", path, case, if gzip { "Accept-Encoding: gzip\r\n" } else { "" }).as_bytes());
    let x = c.read(true);
    let enc = x.header("Content-Encoding").map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    let body = unpacked(&x.body, &enc).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    let id = body.split(' ').next().and_then(|s| s.strip_prefix('h')).and_then(|s| s.parse::<i64>().ok()).filter(|id| body == format!("h{} ", id).repeat(200)).unwrap_or(-1);
    let ran = lock(&seen).clone();
    unsink(case);
    json!({"e": "ask", "gzip": gzip, "end": x.end, "status": x.status, "ran": ran, "body": id, "packed": enc == "gzip"})
}

fn history(ops: &[Value], r: &mut Rng) -> Vec<Value> {
    let ports = ports(r);
    let mut out = vec![json!({"e": "case", "p": "C26"})];
    let mut hs: Vec<Handle> = vec![];
    let mut ls: Vec<Listener> = vec![];
    let mut roots: Vec<BTreeSet<u64>> = vec![];
    let mut strangers: HashMap<usize, TcpListener> = HashMap::new();
    let mut held: Vec<(u64, Conn)> = vec![];
    let mut ids = 0;
    let gate: Gate = Default::default();
    let num = |o: &Value, k: &str| o[k].as_i64().unwrap_or(0);
    // in the end some are filled
    let fill: Vec<Value> = (1..=4).filter(|_| r.chance(1, 2)).flat_map(|at| (0..5).map(move |_| json!({"op": "block", "at": at}))).collect();
    for o in ops.iter().chain(&fill) {
        let h = if hs.is_empty() { 0 } else { (num(o, "h") - 1).rem_euclid(hs.len() as i64) as usize };
        let at = if ls.is_empty() { 0 } else { (num(o, "at") - 1).rem_euclid(ls.len() as i64) as usize };
        let p = num(o, "p") as usize;
        match o["op"].as_str().unwrap_or("") {
            "new" => {
                let mut s = HttpServer::new();
                s.set_log(log::LevelFilter::Off, logdir(), 1, 1);
                s.router("").get("/gate", H[GATE]);
                s.router("").get("/still", H[STILL]);
                s.router("").get("/work", H[WORK]);
                let n = r.range(1, 3);
                s.set_pool_size(n);
                roots.push(BTreeSet::new());
                hs.push(Handle { server: s, root: roots.len() - 1, size: n, keep: 30_000 });
                out.push(json!({"e": "new", "o": {"op": "new"}}));
                out.push(json!({"e": "size", "o": {"op": "size", "h": hs.len(), "n": n}}));
                if r.chance(1, 3) {
                    let h = hs.len();
                    hs[h - 1].keep = 100;
                    hs[h - 1].server.set_keepalive(100);
                    out.push(json!({"e": "keep", "o": {"op": "keep", "h": h, "n": 100}}));
                }
            }
            "clone" if hs.len() < 6 => {
                hs.push(Handle { server: hs[h].server.clone(), root: hs[h].root, size: hs[h].size, keep: hs[h].keep });
                out.push(json!({"e": "clone", "o": {"op": "clone", "h": h + 1}}));
            }
            "comp" => { hs[h].server.set_compress(); out.push(json!({"e": "comp", "o": {"op": "comp", "h": h + 1, "n": 1}})) }
            "size" => {
                let n = num(o, "n").max(1) as usize;
                hs[h].size = n;
                hs[h].server.set_pool_size(n);
                out.push(json!({"e": "size", "o": {"op": "size", "h": h + 1, "n": n}}));
            }
            "keep" => {
                let n = if num(o, "n") == 1 { 100 } else { 60_000 };
                hs[h].keep = n;
                hs[h].server.set_keepalive(n);
                out.push(json!({"e": "keep", "o": {"op": "keep", "h": h + 1, "n": n}}));
            }
            // a kept connection nobody uses: closed in time, or not within 250 ms
            "idle" if !ls.is_empty() && ls[at].held < ls[at].size => {
                let l = &ls[at];
                let mut c = Conn::open(l.port);
                c.send(b"GET /still HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n");
                let end = c.read(false).end;
                let closed = c.wait_end(if l.keep < 1000 { patience() } else { Duration::from_millis(250) }) != "timeout";
                if closed != (l.keep < 1000) { missing() }
                out.push(json!({"e": "idle", "at": at + 1, "answered": end == "ok", "closed": closed}));
            }
            "route" if roots[hs[h].root].insert(p as u64) => {
                ids += 1;
                let group = r.chance(1, 3);
                let s = hs[h].server.clone();
                let register = move || catch_unwind(AssertUnwindSafe(|| if group { s.router(&format!("/p{}", p)).get("/x", H[ids]) } else { s.router("").get(&format!("/p{}/x", p), H[ids]) })).is_ok();
                // a connection that was there before is asked afterwards
                let kept = ls.iter().position(|l| l.held < l.size && l.keep > 1000).filter(|_| r.chance(1, 2)).map(|i| {
                    let mut c = Conn::open(ls[i].port);
                    c.send(b"GET /still HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n");
                    c.read(false);
                    (i, c)
                });
                // sometimes a handler does it, of this server or of another
                let ok = match ls.iter().find(|l| l.held + 1 < l.size || l.held < l.size && kept.is_none()) {
                    Some(l) if r.chance(1, 3) => {
                        let (case, _) = sink();
                        let done = Arc::new(Mutex::new(false));
                        let d = done.clone();
                        lock(jobs()).insert(case, Box::new(move || *lock(&d) = register()));
                        let x = once(l.port, format!("GET /work HTTP/1.1\r\nHost: h\r\nX-Case: {}\r\n\r\n", case).as_bytes());
                        unsink(case);
                        let ok = *lock(&done);
                        ok && x.status == 200 && x.body == b"work"
                    }
                    _ => register(),
                };
                out.push(json!({"e": "route", "ok": ok, "o": {"op": "route", "h": h + 1, "p": p, "id": ids}}));
                if let Some((i, c)) = kept {
                    let mut e = ask_on(c, &format!("/p{}/x", p), r.chance(1, 2));
                    e["at"] = json!(i + 1);
                    e["p"] = json!(p);
                    out.push(e);
                }
            }
            "take" => if !strangers.contains_key(&p) && !ls.iter().any(|l| l.port == ports[p - 1]) {
                match TcpListener::bind(("127.0.0.1", ports[p - 1])) { Ok(l) => { strangers.insert(p, l); } Err(_) => out.push(json!({"e": "taken by somebody else"})) }
            },
            "leave" => { strangers.remove(&p); }
            "listen" => {
                let mut how = o["how"].as_str().unwrap_or("list").to_string();
                let mut ks: Vec<i64> = o["addrs"].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap_or(0)).collect()).unwrap_or_default();
                match how.as_str() { "bad" => ks.clear(), "text" | "pair" => ks.truncate(1), _ => () }
                if ks.is_empty() && how != "bad" { how = "list".into() }
                let addrs: Vec<SocketAddr> = ks.iter().map(|k| match k { 0 => "127.0.0.1:0".parse().unwrap(), -1 => "192.0.2.1:7".parse().unwrap(), k => ([127, 0, 0, 1], ports[*k as usize - 1]).into() }).collect();
                let free: Vec<usize> = (1..=3).filter(|k| !strangers.contains_key(k) && !ls.iter().any(|l| l.port == ports[k - 1])).collect();
                let before = sockets();
                let (res, port, left) = listen(&hs[h].server, &how, &addrs, r, || listening(&sockets().difference(&before).cloned().collect::<Vec<_>>()));
                let at = ports.iter().position(|q| *q == port).map(|i| i as i64 + 1).unwrap_or(-1);
                out.push(json!({"e": "listen", "h": h + 1, "how": how, "addrs": ks, "free": free, "res": res, "port": at, "left": left}));
                if res == "listening" { ls.push(Listener { port, size: hs[h].size, keep: hs[h].keep, held: 0 }) }
            }
            "block" if num(o, "at") <= ls.len() as i64 && !ls.is_empty() && ls[at].held <= ls[at].size => {
                let (case, seen) = sink();
                lock(gates()).insert(case, gate.clone());
                let mut c = Conn::open(ls[at].port);
                c.send(format!("GET /gate HTTP/1.1\r\nHost: h\r\nX-Case: {}\r\n\r\n", case).as_bytes());
                let end = Instant::now() + if ls[at].held < ls[at].size { patience() } else { Duration::from_millis(30) };
                while lock(&seen).is_empty() && Instant::now() < end { std::thread::sleep(Duration::from_micros(200)) }
                let ran = !lock(&seen).is_empty();
                if ran != (ls[at].held < ls[at].size) { missing() }
                out.push(json!({"e": "block", "at": at + 1, "held": ls[at].held, "ran": ran}));
                ls[at].held += 1;
                held.push((case, c));
            }
            "ask" if !ls.is_empty() && ls[at].held < ls[at].size => {
                let mut e = ask(ls[at].port, &format!("/p{}/x", p), o["gzip"] == true);
                e["at"] = json!(at + 1);
                e["p"] = json!(p);
                out.push(e);
            }
            _ => (),
        }
    }
    // where all workers are held, others wait for their turn: as many as the pool has places for
    let mut crowd: Vec<Conn> = vec![];
    let mut queue = json!(null);
    for at in 0..ls.len() {
        if crowd.is_empty() && ls[at].held >= ls[at].size && r.chance(1, 3) {
            let places = 100 - (ls[at].held - ls[at].size);
            let n = *r.pick(&[5, places, places, places / 2, places + 9]);
            for _ in 0..n {
                let mut c = Conn::open(ls[at].port);
                c.send(b"GET /still HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n");
                crowd.push(c);
            }
            queue = json!({"e": "crowded", "at": at + 1, "held": ls[at].held, "asked": n});
        }
    }
    if !crowd.is_empty() { std::thread::sleep(Duration::from_millis(30)) }
    *lock(&gate.0) = true;
    gate.1.notify_all();
    let served = crowd.iter_mut().map(|c| c.read(true)).filter(|x| x.status == 200 && x.body == b"still").count();
    if !crowd.is_empty() {
        queue["answered"] = json!(served);
        out.push(queue);
    }
    let asked = held.len();
    let answered = held.iter_mut().filter_map(|(case, c)| { let x = c.read(true); lock(gates()).remove(case); unsink(*case); Some(x.status == 200 && x.body == b"gate") }).filter(|x| *x).count();
    out.push(json!({"e": "released", "asked": asked, "answered": answered}));
    // and everybody is asked everything
    for (i, l) in ls.iter().enumerate() {
        for p in 0..=4 {
            let mut e = ask(l.port, &format!("/p{}/x", p), r.chance(1, 2));
            e["at"] = json!(i + 1);
            e["p"] = json!(p);
            out.push(e);
        }
    }
    out
}

/// Somebody else may have come to a port meanwhile.
fn doubtful(out: &[Value]) -> bool {
    out.iter().any(|e| e["e"] == "idle" && e["answered"] == false || e["e"] == "taken by somebody else" || e["e"] == "listen" && e["res"] == "error" && e["left"] == 0 && e["addrs"].as_array().map(|a| a.iter().any(|k| *k != json!(-1))).unwrap_or(false))
}

pub fn run(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x26);
    for i in 1..WORK {
        bind(i, move |ctx| { report(case_of(ctx), json!(i)); ctx.resp_body(format!("h{} ", i).repeat(200).into_bytes()); ctx.response() });
    }
    bind(STILL, |ctx| { ctx.resp_body(b"still".to_vec()); ctx.response() });
    bind(WORK, |ctx| {
        let job = lock(jobs()).remove(&case_of(ctx));
        if let Some(j) = job { j() }
        ctx.resp_body(b"work".to_vec());
        ctx.response()
    });
    bind(GATE, |ctx| {
        let case = case_of(ctx);
        report(case, json!(0));
        let gate = lock(gates()).get(&case).cloned();
        if let Some(g) = gate { let mut open = lock(&g.0); while !*open { open = g.1.wait(open).unwrap_or_else(|e| e.into_inner()) } }
        ctx.resp_body(b"gate".to_vec());
        ctx.response()
    });
    let mut out = vec![];
    for b in cfg.behaviours() {
        let ops = b.as_array().cloned().unwrap_or_default();
        let mut v = history(&ops, &mut r);
        for _ in 0..2 { if doubtful(&v) { v = history(&ops, &mut r) } }
        out.extend(v);
    }
    cfg.write_trace(&out);
}
