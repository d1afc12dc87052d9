//! C25: URLs of the library's client, answered by handlers of the library's server.
use crate::client::shown;
use crate::http::{ident, text, val};
use crate::resp::{op, perform, show, Op};
use crate::util::*;
use serde_json::{json, Value};
use starry::{Context, HttpClient, Status};
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a handler is to do for a fetch, and what it saw.
struct Plan {
    ops: Vec<Op>,
    ends: String,
    names: Vec<String>,
    onward: String,
    seen: Vec<Value>,
}
#[derive(Clone)]
struct Plans(Arc<Mutex<HashMap<u64, Plan>>>);

fn strings(v: Value) -> Value {
    let one = |b: &Value| String::from_utf8_lossy(&b.as_array().cloned().unwrap_or_default().iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect::<Vec<_>>()).to_string();
    let list = |v: &Value| v.as_array().cloned().unwrap_or_default();
    json!({"ver": list(&v["ver"]).iter().map(one).collect::<Vec<_>>(), "code": v["code"],
           "hs": list(&v["hs"]).iter().map(|m| list(m).iter().map(|h| json!({"n": one(&h["n"]), "vs": list(&h["vs"]).iter().map(one).collect::<Vec<_>>()})).collect::<Vec<_>>()).collect::<Vec<_>>()})
}

fn handle(ctx: &mut Context, slot: usize, plans: &Plans, id: u64) {
    let (ops, ends, names, onward) = match lock(&plans.0).get(&id) {
        Some(p) => (p.ops.clone(), p.ends.clone(), p.names.clone(), p.onward.clone()),
        None => { ctx.resp_body(b"nobody asked".to_vec()); ctx.response(); return }
    };
    let user = ctx.req_userinfo();
    let params: Vec<Value> = names.iter().map(|k| json!({"n": sbytes(k), "h": ctx.req_have_param(k.as_str()),
        "v": ctx.req_param(k.as_str()).map(|s| vec![sbytes(&s)]).unwrap_or_default()})).collect();
    let mut o = json!({"slot": slot, "path": sbytes(&ctx.req_path()), "params": params, "pc": ctx.req_count_param(),
        "host": ctx.req_header_get("Host").map(|v| vec![sbytes(&v)]).unwrap_or_default(), "chost": ctx.req_client_addr().host(),
        "field": if slot == 2 { ctx.req_field("x").map(|v| vec![sbytes(&v)]).unwrap_or_default() } else { vec![] },
        "user": match &user { Some(u) => json!({"h": true, "n": sbytes(&u.username()), "p": sbytes(&u.password())}), None => json!({"h": false, "n": [], "p": []}) }});
    ops.iter().for_each(|o| perform(ctx, o));
    if ends == "onward" { // the body comes from somewhere else
        match HttpClient::get(&onward) {
            Ok(mut x) => ctx.resp_body(x.body()),
            Err(_) => ctx.resp_body(b"nothing there".to_vec()),
        }
    }
    o["draft"] = strings(shown(&ctx.get_response()));
    if let Some(p) = lock(&plans.0).get_mut(&id) { p.seen.push(o) }
    match ends.as_str() {
        "panic" => panic!("handler"),
        "late" => { ctx.response(); panic!("handler") }
        _ => ctx.response(),
    }
}

fn wire(slot: usize, srv: &Srv, f: impl Fn(&mut Context, usize) + Send + Sync + Clone + 'static) {
    for (i, pattern) in ["/a", "/a/:x", "/f/b/c"].iter().enumerate() {
        let g = f.clone();
        bind(slot + i, move |ctx| g(ctx, i + 1));
        route(&srv.server, "", None, "GET", pattern, H[slot + i], None);
    }
}

fn random(r: &mut Rng) -> Value {
    let codes: Vec<u16> = (100..600).filter(|c| Status::from_code(*c).is_ok()).collect();
    // now and then many headers, or long ones
    let many = r.chance(1, 25);
    let long = r.chance(1, 40);
    let count = if many { r.range(30, 220) } else { r.below(8) };
    let ops: Vec<Value> = (0..count).map(|_| {
        let kinds: &[&str] = if many { &["add", "add", "add", "add", "set", "cookie"] } else { &["status", "version", "add", "add", "set", "cookie", "ctype", "body", "body"] };
        let v = if long && r.chance(1, 3) { let k = r.range(500, 20000); "v".repeat(k) } else { text(r, 20, "").trim().to_string() };
        let n = if many && r.chance(2, 3) { format!("X-N{}", r.below(400)) } else if r.chance(1, 3) { format!("X-{}", ident(r, 3)) } else { r.pick(&["X-A", "x-a", "X-B", "Etag", "Location", "Content-Type"]).to_string() };
        json!({"op": r.pick(kinds), "n": n, "v": v, "c": r.pick(&codes),
               "ver": r.pick(&["HTTP/1.0", "HTTP/1.1"]), "ct": r.below(6), "own": r.chance(1, 2), "typed": r.chance(1, 2),
               "size": r.pick(&["none", "tiny", "rand", "rep", "text", "crlf", "large"]), "str": r.chance(1, 2)})
    }).collect();
    json!({"ops": ops, "ends": r.pick(&["ok", "ok", "ok", "ok", "panic", "late", "onward"]), "at": r.pick(&["own", "shared", "shared", "packed"]),
           "path": r.pick(&["a", "a", "x", "x", "f", "none"]), "query": if r.chance(1, 20) { 7 + r.below(2) } else { r.below(7) }, "frag": r.below(4), "scheme": r.pick(&["", "http://", "http://", "https://"]),
           "cred": r.pick(&["none", "none", "pair", "nopass"]), "host": r.pick(&["ip", "ip", "localhost"])})
}

fn url(d: &Value, port: u16, id: Option<u64>, r: &mut Rng) -> (String, Vec<String>) {
    let s = |k: &str| d[k].as_str().unwrap_or("").to_string();
    let mut out = s("scheme");
    let no = ":@/?# \t";
    let name = text(r, 8, no);
    let name = if name.is_empty() { ident(r, 4) } else { name };
    match s("cred").as_str() {
        "pair" => out += &format!("{}:{}@", name, text(r, 10, no)),
        "nopass" => out += &format!("{}:@", name),
        _ => (),
    }
    out += if s("host") == "localhost" { "localhost" } else { "127.0.0.1" };
    out += &format!(":{}", port);
    out += &match s("path").as_str() {
        "a" => "/a".to_string(),
        "x" => format!("/a/{}", match r.below(4) { 0 => text(r, 12, "/?# \t"), 1 => "%2F+..;x=1&y".into(), 2 => { let k = if r.chance(1, 3) { 6000 } else { 900 }; "x".repeat(r.range(1, k)) } _ => ident(r, 6) }),
        "f" => "/f/b/c".into(),
        _ => r.pick(&["", "/", "/nosuch", "/a/b/c", "/f/b", "/f/b/c/", "//a", "/A", "/f//c", "/a/b/"]).to_string(),
    };
    let mut q = match d["query"].as_u64().unwrap_or(0) {
        0 => String::new(), 1 => "?".into(), 2 => "?a=1".into(), 3 => "?b=2&a=1&a=3&&c".into(), 4 => "?x=a=b?c/d:e@f".into(), 5 => format!("?{}", crate::http::pairs(r, 7, "")),
        7 => format!("?{}", (0..r.range(30, 300)).map(|k| format!("k{}={}", k, r.below(1000))).collect::<Vec<_>>().join("&")),
        8 => format!("?v={}", "w".repeat(r.range(1000, 9000))),
        _ => "?k=&=v&k=2&K=3&".into(),
    };
    if let Some(id) = id {
        let mut ps: Vec<String> = q.trim_start_matches('?').split('&').map(|x| x.to_string()).filter(|x| x != "id" && !x.starts_with("id=")).collect();
        let i = r.below(ps.len() + 1);
        ps.insert(i, format!("id={}", id));
        q = format!("?{}", ps.join("&"));
    }
    out += &q;
    out += &match d["frag"].as_u64().unwrap_or(0) { 0 => String::new(), 1 => "#".into(), 2 => "#f?x=1&id=0".into(), _ => format!("#{}", text(r, 8, " \t")) };
    let mut names: BTreeSet<String> = out.split(|c| "?&=#".contains(c)).skip(1).map(|x| x.to_string()).collect();
    names.extend(["nosuch".to_string(), "A".into(), "ID".into()]);
    (out, names.into_iter().filter(|x| x.len() <= 64).take(40).collect())
}

fn fetch(url: &str) -> (&'static str, Option<starry::Response>) {
    let (tx, rx) = std::sync::mpsc::channel();
    let u = url.to_string();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(|| HttpClient::get(&u));
        let _ = tx.send(match r { Ok(Ok(resp)) => ("ok", Some(resp)), Ok(Err(e)) => { if std::env::var("VH_ERR").is_ok() { eprintln!("ERR {} {:?}", u, e) } ("err", None) } Err(_) => ("panic", None) });
    });
    match rx.recv_timeout(patience()) {
        Ok(x) => x,
        Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => ("panic", None),
        Err(_) => { missing(); ("hang", None) }
    }
}

pub fn run(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x25);
    let mut ds: Vec<Value> = cfg.behaviours().into_iter().flat_map(|b| b.as_array().cloned().unwrap_or_default()).collect();
    for _ in 0..cfg.scale(500, 6000) {
        ds.push(random(&mut r));
    }
    // bodies beyond any round number
    for (k, size) in ["2m", "65537", "1m1", "4m", "65536", "1m1"].iter().enumerate() {
        let mut d = random(&mut r);
        d["ops"] = json!([{"op": "body", "own": k % 2 == 0, "typed": false, "size": size}]);
        d["ends"] = json!("ok");
        d["path"] = json!("a");
        ds.push(d);
    }
    let plans = Plans(Arc::new(Mutex::new(HashMap::new())));
    let lanes = 8;
    // one server per lane: the handler serves the lane's current fetch, whatever the URL says
    let now: Arc<Mutex<Vec<u64>>> = Arc::new(Mutex::new(vec![0; lanes]));
    let own: Vec<Srv> = (0..lanes).map(|k| {
        let s = start(3, None, k % 2 == 1);
        let (p, n) = (plans.clone(), now.clone());
        wire(1 + 4 * k, &s, move |ctx, slot| { let id = lock(&n)[k]; handle(ctx, slot, &p, id) });
        s
    }).collect();
    // two servers for all lanes at once: the query names the fetch
    let all: Vec<Srv> = (0..2).map(|k| {
        let s = start(12, Some(60000), k == 1);
        let p = plans.clone();
        wire(40 + 4 * k, &s, move |ctx, slot| { let id = ctx.req_param("id").and_then(|s| s.parse().ok()).unwrap_or(0); handle(ctx, slot, &p, id) });
        s
    }).collect();
    // somewhere else: says its own path in a large body
    let away = start(6, None, false);
    bind(60, |ctx| { let b = ctx.req_path().repeat(20).into_bytes(); ctx.resp_body(b); ctx.response() });
    route(&away.server, "", None, "GET", "/away/:n", H[60], None);
    // clients of another kind come and go meanwhile
    let stop = Arc::new(AtomicBool::new(false));
    let noise: Vec<_> = (0..2).map(|k| {
        let (stop, ports, mut r) = (stop.clone(), [all[0].port, all[1].port], r.fork());
        std::thread::spawn(move || {
            let until = Instant::now() + Duration::from_secs(400);
            let mut n = 0;
            while !stop.load(Ordering::SeqCst) && Instant::now() < until {
                if let Ok(mut s) = std::net::TcpStream::connect(("127.0.0.1", ports[n / 2 % 2])) {
                    use std::io::{Read, Write};
                    let b: &[u8] = match (r.below(4), k) { (0, _) => b"GET /a?id=999999", (1, _) => b"GET /a HTTP/9.9\r\n\r\n", (2, _) => b"", _ => b"GET /f/b/c?id=0 HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\n" };
                    let _ = s.write_all(b);
                    std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
                    n += 1;
                    if n % 2 == 0 { // the others leave at once; the server has come to all earlier ones when this one is done
                        let _ = s.set_read_timeout(Some(patience()));
                        let _ = s.shutdown(std::net::Shutdown::Write);
                        let mut sink = vec![];
                        let _ = s.take(1 << 20).read_to_end(&mut sink);
                    }
                }
            }
        })
    }).collect();
    let mut work: Vec<Vec<(u64, Value, Rng)>> = vec![vec![]; lanes];
    for (i, d) in ds.into_iter().enumerate() {
        work[i % lanes].push((i as u64 + 1, d, r.fork()));
    }
    let out = par(work, lanes, |k, cases| {
        let mut out = vec![];
        for (id, d, r) in cases {
            let (id, mut r) = (*id, r.clone());
            let at = d["at"].as_str().unwrap_or("own");
            let srv = match at { "shared" => &all[0], "packed" => &all[1], _ => &own[k] };
            let mut ops: Vec<Op> = d["ops"].as_array().cloned().unwrap_or_default().iter().map(|d| op(d, &mut r)).collect();
            let ends = d["ends"].as_str().unwrap_or("ok").to_string();
            let (text, names) = url(d, srv.port, if at == "own" { None } else { Some(id) }, &mut r);
            let onward = format!("http://127.0.0.1:{}/away/{}", away.port, id);
            lock(&now)[k] = id;
            lock(&plans.0).insert(id, Plan { ops: ops.clone(), ends: ends.clone(), names: names.clone(), onward, seen: vec![] });
            let (res, resp) = fetch(&text);
            let seen = lock(&plans.0).remove(&id).map(|p| p.seen).unwrap_or_default();
            if ends == "onward" {
                ops.push(Op::Body { own: true, b: format!("/away/{}", id).repeat(20).into_bytes(), ct: None });
            }
            let (show_, cookies, body) = match resp {
                None => (json!({"ver": [], "code": [], "hs": []}), json!({"ok": false, "panic": false, "texts": []}), vec![]),
                Some(mut x) => { let s = shown(&x); let c = crate::cookies::reading(&x).0; (strings(s), c, x.body()) }
            };
            let raws: Vec<Value> = ops.iter().filter_map(|o| match o { Op::Cookie(_, t) => Some(sbytes(t)), _ => None }).collect();
            out.push(json!({"e": "case", "p": "C25"}));
            out.push(json!({"e": "get", "text": sbytes(&text), "port": srv.port, "names": names.iter().map(|n| sbytes(n)).collect::<Vec<_>>(),
                "ops": ops.iter().map(show).collect::<Vec<_>>(), "raws": raws, "ends": ends, "runs": seen, "r": res, "show": show_, "cookies": cookies, "body": val(&body)}));
        }
        out
    });
    stop.store(true, Ordering::SeqCst);
    noise.into_iter().for_each(|n| { let _ = n.join(); });
    cfg.write_trace(&out.concat());
}
