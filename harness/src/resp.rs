//! C12, C13: handlers compose responses from sequences of operations; what arrives is recorded.
use crate::filters::ext;
use crate::http::{ident, text, val};
use crate::util::*;
use serde_json::{json, Value};
use starry::header::{cookie::SameSite, ContentType, Cookie, CookieBuilder};
use starry::{Context, Status, Version};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone)]
pub enum Op {
    Status(u16),
    Version(String),
    Add(String, String, bool),
    Set(String, String, bool),
    Cookie(Cookie, String),
    Ctype(ContentType, String),
    Body { own: bool, b: Vec<u8>, ct: Option<(ContentType, String)> },
}
struct Plan {
    ops: Vec<Op>,
    cut: usize,
}
type Plans = Arc<Mutex<HashMap<u64, Plan>>>;

fn types(i: usize, r: &mut Rng) -> (ContentType, String) {
    let t: [(ContentType, &str); 14] = [
        (ContentType::TEXT_HTML, "text/html"), (ContentType::TEXT_PLAIN, "text/plain"), (ContentType::TEXT_XML, "text/xml"),
        (ContentType::IMAGE_GIF, "image/gif"), (ContentType::IMAGE_JPEG, "image/jpeg"), (ContentType::IMAGE_PNG, "image/png"),
        (ContentType::APPLICATION_XHTML_XML, "application/xhtml+xml"), (ContentType::APPLICATION_XML, "application/xml"),
        (ContentType::APPLICATION_ATOM_XML, "application/atom+xml"), (ContentType::APPLICATION_JSON, "application/json"),
        (ContentType::APPLICATION_PDF, "application/pdf"), (ContentType::APPLICATION_MS_WORD, "application/msword"),
        (ContentType::APPLICATION_OCTET_STREAM, "application/octet-stream"),
        (ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED, "application/x-www-form-urlencoded")];
    match i {
        0 => {
            let s = format!("{}/{}; charset={}", ident(r, 5), ident(r, 5), ident(r, 5));
            (ContentType::custom(s.clone()), s)
        }
        _ => {
            let (a, b) = r.pick(&t).clone();
            (a, b.to_string())
        }
    }
}

pub fn perform(ctx: &mut Context, o: &Op) {
    match o {
        Op::Status(c) => if let Ok(s) = Status::from_code(*c) { ctx.resp_status(s) },
        Op::Version(v) => ctx.resp_version(if v == "HTTP/1.0" { Version::HTTP_10 } else { Version::HTTP_11 }),
        Op::Add(n, v, false) => ctx.resp_add_header(n.clone(), v.clone()),
        Op::Add(n, v, true) => ctx.resp_add_header_str(n, v),
        Op::Set(n, v, false) => ctx.resp_set_header(n.clone(), v.clone()),
        Op::Set(n, v, true) => ctx.resp_set_header_str(n, v),
        Op::Cookie(c, _) => ctx.resp_add_cookie(c.clone()),
        Op::Ctype(c, _) => ctx.resp_content_type(c.clone()),
        Op::Body { own: true, b, ct: None } => ctx.resp_body(b.clone()),
        Op::Body { own: true, b, ct: Some((c, _)) } => ctx.resp_bodies(b.clone(), c.clone()),
        Op::Body { own: false, b, ct } => {
            let s: &'static [u8] = Box::leak(b.clone().into_boxed_slice());
            match ct {
                None => ctx.resp_body_slice(s),
                Some((c, _)) => ctx.resp_body_slices(s, c.clone()),
            }
        }
    }
}

fn packed(b: &[u8], how: &str) -> usize {
    use flate2::{write::*, Compression};
    match how {
        "gzip" => { let mut e = GzEncoder::new(vec![], Compression::default()); e.write_all(b).ok(); e.finish().map(|v| v.len()).unwrap_or(0) }
        "deflate" => { let mut e = DeflateEncoder::new(vec![], Compression::default()); e.write_all(b).ok(); e.finish().map(|v| v.len()).unwrap_or(0) }
        _ => { let mut e = ZlibEncoder::new(vec![], Compression::default()); e.write_all(b).ok(); e.finish().map(|v| v.len()).unwrap_or(0) }
    }
}
/// Reads the whole of it: nothing may follow the coded data.
pub fn unpacked(b: &[u8], how: &str) -> Option<Vec<u8>> {
    use flate2::bufread::*;
    let mut out = vec![];
    let left = match how {
        "" => return Some(b.to_vec()),
        "gzip" => { let mut d = GzDecoder::new(b); d.read_to_end(&mut out).ok()?; d.into_inner().len() }
        "deflate" => { let mut d = DeflateDecoder::new(b); d.read_to_end(&mut out).ok()?; d.into_inner().len() }
        "zlib" => { let mut d = ZlibDecoder::new(b); d.read_to_end(&mut out).ok()?; d.into_inner().len() }
        _ => return None,
    };
    if left == 0 { Some(out) } else { None }
}

pub fn show(o: &Op) -> Value {
    match o {
        Op::Status(c) => json!({"op": "status", "c": c}),
        Op::Version(v) => json!({"op": "version", "v": v}),
        Op::Add(n, v, _) => json!({"op": "add", "n": n, "v": v}),
        Op::Set(n, v, _) => json!({"op": "set", "n": n, "v": v}),
        Op::Cookie(_, t) => json!({"op": "cookie", "v": t}),
        Op::Ctype(_, t) => json!({"op": "ctype", "v": t}),
        Op::Body { own, b, ct } => json!({"op": "body", "own": own, "b": val(b), "len": b.len(),
            "ct": ct.as_ref().map(|x| x.1.clone()).unwrap_or("text/plain".into()),
            "gzip": packed(b, "gzip"), "deflate": packed(b, "deflate"), "zlib": packed(b, "zlib")}),
    }
}

fn content(size: &str, r: &mut Rng) -> Vec<u8> {
    match size {
        "none" => vec![],
        "tiny" => { let n = r.range(1, 12); r.bytes(n) }
        "rand" => { let n = r.range(20, 3000); r.bytes(n) }
        "rep" => { let n = r.range(30, 5000); let p = ident(r, 6); p.bytes().cycle().take(n).collect() }
        "edge" => { // about as long packed as plain
            let n = r.range(6, 60);
            let mut b = r.bytes(n);
            let m = r.range(1, 40);
            b.extend(std::iter::repeat(b'a').take(m));
            b
        }
        "text" => text(r, 300, "").into_bytes(),
        "crlf" => b"\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".repeat(r.range(1, 5)),
        "2m" | "1m1" | "4m" | "65536" | "65537" => {
            let n = match size { "2m" => 2_200_000, "1m1" => 1_048_577, "4m" => 4_300_000, x => x.parse().unwrap_or(0) };
            let p = r.bytes(97);
            (0..n).map(|i| p[i % 97] ^ (i >> 14) as u8).collect()
        }
        _ => { let n = if r.chance(1, 12) { r.range(1_000_000, 3_000_000) } else { r.range(60_000, 400_000) }; let k = r.below(3); (0..n).map(|_| match k { 0 => r.next() as u8, 1 => b'a' + (r.next() % 4) as u8, _ => b'x' }).collect() }
    }
}
fn cookie(r: &mut Rng, v: &str) -> (Cookie, String) {
    let n = ident(r, 5);
    let v: String = v.chars().filter(|c| *c != ';').collect();
    let v = v.trim().to_string();
    match r.below(5) {
        0 => (CookieBuilder::new().name_value(n.clone(), v.clone()).path("/p".into()).build(), format!("{}={}; Path=/p", n, v)),
        1 => (CookieBuilder::new().name_value(n.clone(), v.clone()).httponly(true).secure(true).build(), format!("{}={}; HttpOnly; Secure", n, v)),
        2 => (CookieBuilder::new().name_value(n.clone(), v.clone()).max_age(7).same_site(SameSite::Lax).build(), format!("{}={}; Max-Age=7; SameSite=Lax", n, v)),
        _ => (Cookie::new(n.clone(), v.clone()), format!("{}={}", n, v)),
    }
}

pub fn op(d: &Value, r: &mut Rng) -> Op {
    let s = |k: &str| d[k].as_str().unwrap_or("").to_string();
    let st = d["str"].as_bool().unwrap_or(false);
    match d["op"].as_str().unwrap_or("") {
        "status" => Op::Status(d["c"].as_u64().unwrap_or(200) as u16),
        "version" => Op::Version(s("ver")),
        "add" => Op::Add(s("n"), s("v"), st),
        "set" => Op::Set(s("n"), s("v"), st),
        "cookie" => { let (c, t) = cookie(r, &s("v")); Op::Cookie(c, t) }
        "ctype" => { let (c, t) = types(d["ct"].as_u64().unwrap_or(1) as usize, r); Op::Ctype(c, t) }
        _ => {
            let ct = if d["typed"].as_bool().unwrap_or(false) { Some(types(d["ct"].as_u64().unwrap_or(1) as usize, r)) } else { None };
            Op::Body { own: d["own"].as_bool().unwrap_or(true), b: content(&s("size"), r), ct }
        }
    }
}

struct Ask {
    ver: String,
    keep: bool,
    comp: bool,
    cut: usize,
    ae: Option<String>,
    method: &'static str,
}
struct Case {
    ops: Vec<Op>,
    ask: Ask,
}

fn accept(d: &Value, r: &mut Rng) -> Option<String> {
    let mut seen: Vec<String> = vec![];
    let mut parts = vec![];
    let mut items: Vec<(String, String)> = match d {
        Value::Object(m) => m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect(),
        _ => vec![],
    };
    for i in (1..items.len()).rev() {
        let j = r.below(i + 1);
        items.swap(i, j);
    }
    for (k, v) in items {
        let low = k.to_lowercase();
        if !seen.contains(&low) {
            seen.push(low);
            parts.push(format!("{}{}", k, v));
        }
    }
    if parts.is_empty() {
        return if r.chance(1, 2) { None } else { Some(String::new()) };
    }
    Some(parts.join(r.pick::<&str>(&[",", ", ", " , ", ",,", ", ,\t"])))
}

fn random(r: &mut Rng, p: &str) -> (Value, Value) {
    let c13 = p == "C13";
    let codes: Vec<u16> = (100..600).filter(|c| Status::from_code(*c).is_ok()).collect();
    let many = !c13 && r.chance(1, 25);
    let n = if c13 { r.below(5) } else if many { *r.pick(&[40usize, 70, 130, 260, 300]) } else { r.below(12) };
    let spread = if many { *r.pick(&[1usize, 20, 1000]) } else { 0 };
    let long = !c13 && r.chance(1, 40);
    let ops: Vec<Value> = (0..n).map(|_| {
        let kinds: &[&str] = if c13 { &["body", "body", "body", "ctype", "add"] } else { &["status", "version", "add", "add", "set", "cookie", "ctype", "body", "body"] };
        let kinds = if many { &["add", "add", "add", "set", "cookie"][..if spread == 1000 { 3 } else { 5 }] } else { kinds };
        let value = if long && r.chance(1, 3) { let k = r.range(500, 30000); "v".repeat(k) } else { text(r, 20, "").trim().to_string() };
        let sizes: &[&str] = if c13 { &["none", "tiny", "rand", "rep", "rep", "edge", "edge", "text", "large"] } else { &["none", "tiny", "rand", "rep", "text", "crlf", "large"] };
        let n = if spread > 0 { format!("X-N{}", r.below(spread)) } else if r.chance(1, 3) { format!("X-{}", ident(r, 3)) } else { r.pick(&["X-A", "x-a", "X-B", "Etag", "Set-Cookie", "Location", "Cache-Control", "Content-Type"]).to_string() };
        json!({"op": r.pick(kinds), "n": n, "v": value, "c": r.pick(&codes),
               "ver": r.pick(&["HTTP/1.0", "HTTP/1.1"]), "ct": r.below(6), "own": r.chance(1, 2), "typed": r.chance(1, 2),
               "size": r.pick(sizes), "str": r.chance(1, 2)})
    }).collect();
    let mut ae = serde_json::Map::new();
    for c in ["gzip", "deflate", "zlib", "br", "identity", "x-gzip", "GZIP", "Deflate"] {
        if r.chance(1, 3) {
            ae.insert(c.into(), json!(r.pick(&["", "", ";q=0", ";q=0.5", "; q=1", ";q=0.0", " ; q=0.001", ";q=0.000", ";q=1.000", ";q=0.9"])));
        }
    }
    (json!(ops), json!({"ver": r.pick(&["HTTP/1.1", "HTTP/1.0"]), "keep": r.chance(1, 2), "comp": r.chance(if c13 { 6 } else { 2 }, 7), "cut": r.below(10), "ae": ae}))
}

pub fn run(cfg: &Cfg, p: &'static str) {
    let mut r = Rng::new(cfg.seed ^ if p == "C12" { 0x12 } else { 0x13 });
    let mut ds: Vec<(Value, Value)> = cfg.behaviours().into_iter().map(|b| (b["ops"].clone(), b["req"].clone())).collect();
    for _ in 0..cfg.scale(400, 4000) {
        ds.push(random(&mut r, p));
    }
    // bodies beyond any round number, plain and packed
    for (k, size) in ["2m", "65537", "2m", "1m1", "4m", "65536"].iter().enumerate() {
        let (_, mut q) = random(&mut r, p);
        if p == "C13" { q["comp"] = json!(true); q["ae"] = json!({["gzip", "deflate", "zlib"][k % 3]: ""}); }
        ds.push((json!([{"op": "body", "own": k % 2 == 0, "typed": false, "size": size}]), q));
    }
    let cases: Vec<Case> = ds.into_iter().map(|(ops, q)| {
        let mut ops: Vec<Op> = ops.as_array().cloned().unwrap_or_default().iter().map(|d| op(d, &mut r)).collect();
        // the very same once more
        while !ops.is_empty() && r.chance(1, 4) {
            let o = r.pick(&ops).clone();
            let at = r.below(ops.len() + 1);
            ops.insert(at, o);
        }
        let ask = Ask { ver: q["ver"].as_str().unwrap_or("HTTP/1.1").into(), keep: q["keep"] == true, comp: q["comp"] == true,
                        cut: q["cut"].as_u64().unwrap_or(0) as usize, ae: accept(&q["ae"], &mut r), method: r.pick::<&'static str>(&["GET", "GET", "POST"]) };
        Case { ops, ask }
    }).collect();
    static PLANS: OnceLock<Plans> = OnceLock::new();
    let plans = PLANS.get_or_init(|| Arc::new(Mutex::new(HashMap::new()))).clone();
    let (a, b) = (plans.clone(), plans.clone());
    bind(1, move |ctx| {
        let id = case_of(ctx);
        let ops: Vec<Op> = lock(&a).get(&id).map(|p| p.ops.iter().take(p.cut).cloned().collect()).unwrap_or_default();
        ops.iter().for_each(|o| perform(ctx, o));
    });
    bind(2, move |ctx| {
        let id = case_of(ctx);
        let ops: Vec<Op> = lock(&b).get(&id).map(|p| p.ops.iter().skip(p.cut).cloned().collect()).unwrap_or_default();
        ops.iter().for_each(|o| perform(ctx, o));
        ctx.response();
    });
    bind(3, |ctx| { ctx.resp_body(b"pong".to_vec()); ctx.response() });
    let srv = |compress| {
        let s = start(10, Some(60000), compress);
        for m in ["GET", "POST"] {
            route(&s.server, "", None, m, "/c", H[2], Some(ext(&[1])));
        }
        route(&s.server, "", None, "GET", "/ping", H[3], None);
        s
    };
    let (plain, comp) = (srv(false), srv(true));
    let out = par(cases, 8, |i, c| {
        let id = i as u64 + 1;
        lock(&plans).insert(id, Plan { ops: c.ops.clone(), cut: c.ask.cut });
        let q = &c.ask;
        let mut conn = Conn::open(if q.comp { comp.port } else { plain.port });
        conn.send(format!("{} /c {}\r\nHost: h\r\nX-Case: {}\r\n{}{}{}\r\n", q.method, q.ver, id,
            if q.method == "POST" { "Content-Length: 0\r\n" } else { "" },
            if q.keep { "Connection: keep-alive\r\n" } else { "" },
            q.ae.as_ref().map(|a| format!("Accept-Encoding: {}\r\n", a)).unwrap_or_default()).as_bytes());
        let x = conn.read(!q.keep);
        let t = |b: &[u8]| String::from_utf8_lossy(b).to_string();
        let after = if x.end != "ok" { x.end.clone() } else if q.keep {
            if conn.pending() > 0 { "surplus".to_string() } else {
                conn.send(b"GET /ping HTTP/1.1\r\nHost: h\r\n\r\n");
                let y = conn.read(false);
                if y.end == "ok" && y.body == b"pong" { "answered".into() } else { format!("{} {}", y.end, t(&y.body)) }
            }
        } else { conn.wait_end(patience()) };
        let enc = x.header("Content-Encoding").map(|b| t(&b)).unwrap_or_default();
        let body = unpacked(&x.body, &enc);
        lock(&plans).remove(&id);
        vec![json!({"e": "case", "p": p}),
             json!({"e": "resp", "p": p, "ver": q.ver, "keep": q.keep, "comp": q.comp, "ae": q.ae.iter().map(|a| sbytes(a)).collect::<Vec<_>>(),
                    "ops": c.ops.iter().map(show).collect::<Vec<_>>(), "end": x.end, "version": t(&x.version), "status": x.status, "reason": t(&x.reason),
                    "headers": x.headers.iter().map(|(n, v)| json!({"n": t(n), "v": t(v)})).collect::<Vec<_>>(),
                    "wire": x.body.len(), "dec": body.is_some(), "body": val(&body.unwrap_or_default()), "after": after})]
    });
    cfg.write_trace(&out.concat());
}
