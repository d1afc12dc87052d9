//! C19: cookies written, read, sent by servers and received by clients.
use crate::http::{ident, text};
use crate::util::*;
use serde_json::{json, Value};
use starry::header::{cookie::SameSite, Cookie, CookieBuilder};
use starry::utils::Time;
use starry::{HttpClient, Response};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone)]
struct Made {
    c: Cookie,
    n: String,
    v: String,
    show: Value,
}

fn clean(s: String) -> String {
    s.chars().filter(|c| *c != ';' && *c != '\r' && *c != '\n').collect::<String>().trim().to_string()
}

/// A cookie made through the public interface from its description.
fn make(d: &Value, r: &mut Rng) -> Made {
    let s = |k: &str| clean(d[k].as_str().unwrap_or("").to_string());
    let opt = |k: &str| if d[k]["some"] == true { Some(clean(d[k]["v"].as_str().unwrap_or("").to_string())) } else { None };
    let (n, v, path, domain) = (s("n"), s("v"), opt("path"), opt("domain"));
    let maxage = if d["maxage"]["some"] == true { d["maxage"]["v"].as_i64().map(|x| x as isize) } else { None };
    let (expires, secure, httponly, site) = (d["expires"] == true, d["secure"] == true, d["httponly"] == true, d["samesite"].as_str().unwrap_or(""));
    let when = || if r.chance(1, 2) { Time::from_secs(86400) } else { Time::from_minutes(60) };
    let c = if site.is_empty() && (d["create"] == true || n.len() % 2 == 0) {
        Cookie::create(n.clone(), v.clone(), path.clone(), domain.clone(), if expires { let mut w = when; Some(w()) } else { None }, maxage, secure, httponly)
    } else {
        let mut w = when;
        let mut b = CookieBuilder::new();
        if secure { b.secure(true); }
        if httponly { b.httponly(true); }
        if let Some(m) = maxage { b.max_age(m); }
        match site { "none" => { b.same_site(SameSite::None); } "strict" => { b.same_site(SameSite::Strict); } "lax" => { b.same_site(SameSite::Lax); } _ => () }
        if let Some(p) = &path { b.path(p.clone()); }
        if let Some(p) = &domain { b.domain(p.clone()); }
        if expires { b.expires(w()); }
        b.name_value(n.clone(), v.clone());
        b.build()
    };
    let one = |x: Option<String>| x.into_iter().map(|x| sbytes(&x)).collect::<Vec<_>>();
    let show = json!({"n": sbytes(&n), "v": sbytes(&v), "path": one(path), "domain": one(domain), "expires": expires,
                      "maxage": one(maxage.map(|m| m.to_string())), "secure": secure, "httponly": httponly, "samesite": site});
    Made { c, n, v, show }
}

fn unhex(h: &str) -> Option<String> {
    let b: Option<Vec<u8>> = (0..h.len() / 2).map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect();
    String::from_utf8(b?).ok()
}

/// A Set-Cookie value from a list of pieces, each with its own case and surroundings.
fn spell(d: &Value, r: &mut Rng) -> String {
    const DATES: [&str; 8] = ["Sun, 06 Nov 1994 08:49:37 GMT", "Wed, 08 Dec 2021 10:37:54 GMT", "Thu, 01 Jan 1970 00:00:00 GMT", "Fri, 31 Dec 9999 23:59:59 GMT",
        "Thu, 29 Feb 2024 23:59:59 GMT", "Tue, 19 Jan 2038 03:14:08 GMT", "Mon, 01 Jan 1601 00:00:00 GMT", "Sat, 12 Apr 2262 00:00:00 GMT"];
    const BAD: [&str; 6] = ["soon", "", "Sun, 06 Nov 1994", "0", "1994-11-06 08:49:37", "Sun, 06 Nov 1994 08:49:37 UTC"];
    let mut out = format!("{}={}", clean(d["n"].as_str().unwrap_or("n").to_string()).replace('=', ""), clean(d["v"].as_str().unwrap_or("").to_string()));
    if out.starts_with('=') {
        out.insert(0, 'n');
    }
    for p in d["spell"].as_array().cloned().unwrap_or_default() {
        let p = p.as_str().unwrap_or("");
        let (k, v) = match p.split_once('=') { Some((k, v)) => (k.to_string(), Some(v)), None => (p.to_string(), None) };
        let k: String = match r.below(4) { 0 => k.to_uppercase(), 1 => k.to_lowercase(), _ => k };
        let v = match v { Some("date") => Some(r.pick(&DATES).to_string()), Some("soon") => Some(r.pick(&BAD).to_string()), x => x.map(|x| x.to_string()) };
        out.push_str(r.pick::<&str>(&["; ", ";", " ;  ", ";\t"]));
        out.push_str(&k);
        if let Some(v) = v {
            out.push('=');
            out.push_str(&v);
        }
    }
    if r.chance(1, 8) {
        out.push(';');
    }
    out
}

fn random(r: &mut Rng) -> Value {
    let name = |r: &mut Rng| if r.chance(1, 4) { text(r, 8, "=;") } else { ident(r, 6) };
    let n = clean(name(r));
    let n = if n.is_empty() { "k".to_string() } else { n };
    let long = r.chance(1, 40);
    let val = |r: &mut Rng| if long && r.chance(1, 3) { let k = *r.pick(&[300usize, 1100, 4097, 9000, 20000]); "v".repeat(k) } else if r.chance(1, 3) { clean(text(r, 20, ";")) } else { r.pick(&["", "a=b", "/", "=", "Path=/", "HttpOnly", "x, y", "\"q\""]).to_string() };
    let big = (r.next() % (1 << 40)) as i64 * if r.chance(1, 3) { -1 } else { 1 };
    let k = r.below(8);
    let pieces: Vec<String> = (0..k).map(|_| {
        let v = val(r);
        match r.below(14) {
            0 => format!("Path={}", v), 1 => format!("Domain={}", v), 2 => format!("Max-Age={}", r.pick(&["0", "1", "-1", "0012", "999999999999", "-00120"])),
            3 => "Expires=date".into(), 4 => "Secure".into(), 5 => "HttpOnly".into(), 6 => format!("SameSite={}", r.pick(&["Lax", "STRICT", "none", "no", ""])),
            7 => { let n = clean(name(r)); if n.is_empty() { "u".into() } else { n } }, 8 => format!("u{}={}", ident(r, 4), v), 9 => format!("Max-Age={}", r.pick(&["x", "", "1e3", "1.0", "--1", "-", "0x10"])),
            10 => "Expires=soon".into(), 11 => format!("{}={}", n, v), 12 => String::new(), _ => r.pick(&["Path", "Domain", "Max-Age", "Expires", "SameSite", "Secure=0", "HttpOnly=false"]).to_string(),
        }
    }).collect();
    json!({"n": n, "v": val(r), "path": {"some": r.chance(1, 2), "v": val(r)}, "domain": {"some": r.chance(1, 2), "v": val(r)},
           "maxage": {"some": r.chance(1, 2), "v": big}, "expires": r.chance(1, 5), "secure": r.chance(1, 2), "httponly": r.chance(1, 2),
           "samesite": r.pick(&["", "none", "strict", "lax"]), "spell": pieces, "create": r.chance(1, 2)})
}

pub fn reading(resp: &Response) -> (Value, Vec<Cookie>) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| resp.read_set_cookies())) {
        Ok(Ok(cs)) => (json!({"ok": true, "panic": false, "texts": cs.iter().map(|c| sbytes(&c.to_string())).collect::<Vec<_>>()}), cs),
        Ok(Err(_)) => (json!({"ok": false, "panic": false, "texts": []}), vec![]),
        Err(_) => (json!({"ok": false, "panic": true, "texts": []}), vec![]),
    }
}

pub fn run(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x19);
    let mut groups: Vec<Vec<Value>> = cfg.behaviours().into_iter().map(|b| b.as_array().cloned().unwrap_or_default()).collect();
    for _ in 0..cfg.scale(400, 4000) {
        let len = if r.chance(1, 30) { *r.pick(&[12usize, 20, 40, 70, 130]) } else { r.range(1, 5) };
        groups.push((0..len).map(|_| random(&mut r)).collect());
    }
    type Jar = Arc<Mutex<HashMap<u64, Vec<Cookie>>>>;
    let jar: Jar = Arc::new(Mutex::new(HashMap::new()));
    let j = jar.clone();
    bind(1, move |ctx| {
        let id = ctx.req_field("id").and_then(|s| s.parse().ok()).unwrap_or(0);
        let cs = lock(&j).get(&id).cloned().unwrap_or_default();
        cs.into_iter().for_each(|c| ctx.resp_add_cookie(c));
        ctx.response()
    });
    bind(2, |ctx| {
        let seen: Vec<Value> = ctx.req_cookies().iter().map(|c| sbytes(&c.to_string())).collect();
        let names: Vec<String> = serde_json::from_str(&ctx.req_param("names").and_then(|h| unhex(&h)).unwrap_or_default()).unwrap_or_default();
        let first: Vec<Value> = names.iter().map(|n| json!(ctx.req_cookie_get(n).map(|c| vec![sbytes(&c.to_string())]).unwrap_or_default())).collect();
        report(case_of(ctx), json!({"seen": seen, "first": first}));
        ctx.response()
    });
    let srv = start(8, Some(60000), false);
    route(&srv.server, "", None, "GET", "/c/:id", H[1], None);
    route(&srv.server, "", None, "GET", "/back", H[2], None);
    let items: Vec<(Vec<Made>, Vec<String>, Rng)> = groups.into_iter().map(|g| {
        let ms = g.iter().map(|d| make(d, &mut r)).collect();
        let mut raws: Vec<String> = g.iter().map(|d| spell(d, &mut r)).collect();
        if r.chance(1, 2) { // one header at a time, so that one bad one does not hide the others
            raws.truncate(1);
        }
        (ms, raws, r.fork())
    }).collect();
    let out = par(items, 8, |i, (ms, raws, r)| {
        let mut r = r.clone();
        let id = i as u64 + 1;
        let shows: Vec<&Value> = ms.iter().map(|m| &m.show).collect();
        let trip = |texts: Vec<Value>, r: Value, back: &[Cookie]| {
            let same: Vec<bool> = ms.iter().enumerate().map(|(k, m)| back.get(k) == Some(&m.c)).collect();
            json!({"e": "trip", "cs": shows, "texts": texts, "r": r, "same": same})
        };
        let mut out = vec![json!({"e": "case", "p": "C19"})];
        // as values
        let mut resp = Response::success();
        for m in ms.iter() {
            if r.chance(1, 2) { resp.add_set_cookie(m.c.clone()) } else { resp.add_header("Set-Cookie".into(), m.c.to_string()) }
        }
        let (v, back) = reading(&resp);
        out.push(trip(ms.iter().map(|m| sbytes(&m.c.to_string())).collect(), v, &back));
        // spelled by hand
        let mut resp = Response::success();
        raws.iter().for_each(|s| resp.add_header_str("Set-Cookie", s));
        out.push(json!({"e": "read", "raws": raws.iter().map(|s| sbytes(s)).collect::<Vec<_>>(), "r": reading(&resp).0}));
        // on the wire, and read by the client
        if i % 4 == 0 {
            lock(&jar).insert(id, ms.iter().map(|m| m.c.clone()).collect());
            let x = once(srv.port, format!("GET /c/{} HTTP/1.1\r\nHost: h\r\n\r\n", id).as_bytes());
            let texts: Vec<Value> = x.headers.iter().filter(|(n, _)| n == b"Set-Cookie").map(|(_, v)| bytes(v)).collect();
            let mut resp = Response::success();
            for (n, v) in &x.headers {
                if n == b"Set-Cookie" { resp.add_header_str("Set-Cookie", &String::from_utf8_lossy(v)) }
            }
            let (v, back) = reading(&resp);
            out.push(trip(texts.clone(), v, &back));
            let got = std::panic::catch_unwind(|| HttpClient::get(&format!("http://127.0.0.1:{}/c/{}", srv.port, id)));
            let (v, back) = match &got { Ok(Ok(resp)) => reading(resp), _ => (json!({"ok": false, "panic": false, "texts": []}), vec![]) };
            out.push(trip(texts, v, &back));
            // and sent back
            let line: Vec<String> = ms.iter().map(|m| format!("{}={}", m.n, m.v)).collect();
            let names: String = json!(ms.iter().map(|m| &m.n).collect::<Vec<_>>()).to_string().bytes().map(|b| format!("{:02x}", b)).collect();
            let line = line.join(r.pick::<&str>(&["; ", ";", " ;  "]));
            if line.len() < 30_000 {
                let (case, seen) = sink();
                let x = once(srv.port, format!("GET /back?names={} HTTP/1.1\r\nHost: h\r\nX-Case: {}\r\nCookie: {}\r\n\r\n", names, case, line).as_bytes());
                let seen = lock(&seen).first().cloned().unwrap_or(json!({"seen": [], "first": []}));
                out.push(json!({"e": "back", "cs": shows, "status": x.status, "seen": seen["seen"], "first": seen["first"]}));
                unsink(case);
            }
        }
        out
    });
    cfg.write_trace(&out.concat());
}
