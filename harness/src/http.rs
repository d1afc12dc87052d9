//! C08, C09, C10, C14, C15: requests over sockets, in pieces, malformed, cut off, several per connection.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const METHODS: [&str; 12] = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];

/// Byte strings up to 700 bytes as they are, longer ones as length and digest.
pub fn val(b: &[u8]) -> Value {
    if b.len() <= 700 {
        return bytes(b);
    }
    let mut h: [u64; 2] = [0xcbf29ce484222325, 0x9E3779B97F4A7C15];
    for (i, x) in b.iter().enumerate() {
        h[0] = (h[0] ^ *x as u64).wrapping_mul(0x100000001b3);
        h[1] = h[1].rotate_left(5) ^ (*x as u64).wrapping_add(i as u64).wrapping_mul(0xBF58476D1CE4E5B9);
    }
    json!([-1, b.len() as i64, (h[0] & 0x3fffffff) as i64, (h[0] >> 34) as i64, (h[1] & 0x3fffffff) as i64, (h[1] >> 34) as i64])
}

// ---------------------------------------------------------------- what handlers see
#[derive(Clone, Default)]
struct Probes {
    names: Vec<String>,
    file_first: bool,
    forms: bool,
}
struct Lane {
    srv: Srv,
    probes: Arc<Mutex<Probes>>,
    seen: Arc<Mutex<Vec<Value>>>,
}

fn lane(n: usize) -> Lane {
    let srv = start(4, Some(60000), false);
    let probes = Arc::new(Mutex::new(Probes::default()));
    let seen = Arc::new(Mutex::new(vec![]));
    for (i, pattern) in ["/a", "/a/:x", "/f/b/c"].iter().enumerate() {
        let slot = n * 4 + i + 1;
        let (p, s) = (probes.clone(), seen.clone());
        bind(slot, move |ctx| {
            let pr = lock(&p).clone();
            let mut hdr = vec![];
            for (k, vs) in ctx.req_header().map() {
                for v in vs {
                    hdr.push(json!({"n": sbytes(&k), "v": sbytes(&v)}));
                }
            }
            let mut named: BTreeSet<String> = hdr.iter().map(|h| String::from_utf8_lossy(&h["n"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<_>>()).to_string()).collect();
            named.insert("x-nosuch".into());
            let hget: Vec<Value> = named.iter().map(|n| json!({"n": sbytes(n), "v": ctx.req_header_get(n.as_str()).map(|v| vec![sbytes(&v)]).unwrap_or_default()})).collect();
            let params: Vec<Value> = pr.names.iter().map(|k| json!({"n": sbytes(k), "h": ctx.req_have_param(k.as_str()),
                "v": ctx.req_param(k.as_str()).map(|s| vec![sbytes(&s)]).unwrap_or_default()})).collect();
            let texts: Vec<String> = ctx.req_cookies().iter().map(|c| c.to_string()).collect();
            let cookies: Vec<Value> = texts.iter().map(|t| sbytes(t)).collect();
            let mut asked: BTreeSet<String> = texts.iter().map(|t| t.split('=').next().unwrap_or("").to_string()).collect();
            asked.extend(asked.iter().flat_map(|n| [n.to_ascii_uppercase(), n.to_ascii_lowercase(), format!("{}x", n), n.chars().skip(1).collect()]).collect::<Vec<_>>());
            asked.insert("nosuch".into());
            let step = asked.len() / 60 + 1;
            let asked: Vec<String> = asked.into_iter().rev().step_by(step).collect();
            let cget: Vec<Value> = asked.iter().map(|n| {
                json!({"n": sbytes(n), "v": ctx.req_cookie_get(n.as_str()).map(|c| vec![sbytes(&c.to_string())]).unwrap_or_default()})
            }).collect();
            let user = ctx.req_userinfo();
            let mut files = vec![];
            let mut forms = vec![];
            let mut fc = 0;
            let mut err = false;
            for step in 0..2 {
                if !pr.forms {
                    break;
                }
                if (step == 0) == pr.file_first {
                    for k in &pr.names {
                        match ctx.req_form_file(k.as_str()) {
                            Ok(Some(f)) => files.push(json!({"n": sbytes(k), "f": sbytes(&f.filename()), "s": f.size(), "v": val(&f.content())})),
                            Ok(None) => {}
                            Err(_) => { err = true; break }
                        }
                    }
                } else {
                    for k in &pr.names {
                        let h = ctx.req_have_form(k.as_str());
                        let v = ctx.req_form(k.as_str());
                        match (h, v) {
                            (Ok(h), Ok(v)) => forms.push(json!({"n": sbytes(k), "h": h, "v": v.map(|s| vec![val(s.as_bytes())]).unwrap_or_default()})),
                            _ => { err = true; break }
                        }
                    }
                    fc = ctx.req_count_form().map(|x| x as i64).unwrap_or(-1);
                }
            }
            let o = json!({"slot": i + 1, "path": sbytes(&ctx.req_path()), "hdr": hdr, "hget": hget, "params": params, "pc": ctx.req_count_param(),
                "cookies": cookies, "cget": cget, "ws": ctx.req_is_web_socket(),
                "user": match &user { Some(u) => json!({"h": true, "n": sbytes(&u.username()), "p": sbytes(&u.password())}),
                                      None => json!({"h": false, "n": [], "p": []}) },
                "chost": ctx.req_client_addr().host(), "cport": ctx.req_client_addr().port(),
                "forms": forms, "fc": fc, "files": files, "err": err});
            lock(&s).push(o);
            ctx.resp_body(b"ok".to_vec());
            ctx.response();
        });
        for m in METHODS {
            route(&srv.server, "", None, m, pattern, H[slot], None);
        }
    }
    let slot = n * 4 + 4;
    bind(slot, |ctx| {
        ctx.resp_body(b"probe".to_vec());
        ctx.response();
    });
    route(&srv.server, "", None, "GET", "/probe", H[slot], None);
    Lane { srv, probes, seen }
}

// ---------------------------------------------------------------- one request as bytes
#[derive(Clone, Default)]
pub struct Part {
    pub lines: Vec<Vec<u8>>,
    pub name: String,
    pub file: Option<String>,
    pub content: Vec<u8>,
}
#[derive(Clone, Default)]
pub struct Msg {
    pub head: Vec<u8>,
    pub body: Vec<u8>,
    pub fin: bool,
    /// sizes of the pieces sent one after another (the last one takes the rest)
    pub segs: Vec<usize>,
    pub pause: u64,
    /// pairs of a form too long to be recorded as such
    pub pairs: Vec<(String, String)>,
    pub parts: Vec<Part>,
    pub boundary: Vec<u8>,
    pub tail: Vec<u8>,
    pub names: Vec<String>,
    pub file_first: bool,
    pub noforms: bool,
    /// whether a served request leaves the connection open
    pub keep: bool,
}
#[derive(Clone)]
pub struct Case {
    pub p: &'static str,
    pub msgs: Vec<Msg>,
    /// another client's half-sent request is completed afterwards, a third one asks in between
    pub others: bool,
}

pub fn ident(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'd', 'x', 'y', 'z', '0', '1', '7', '_'])).collect()
}
/// Text without control characters; `no` lists characters it must not contain.
pub fn text(r: &mut Rng, max: usize, no: &str) -> String {
    let n = r.below(max + 1);
    let all: Vec<char> = "abcXYZ0189=&?#;:,./\\-_~+%'\"()[]{}<>|@!$^*` \t\u{e9}\u{4e2d}\u{1F600}".chars().filter(|c| !no.contains(*c)).collect();
    (0..n).map(|_| *r.pick(&all)).collect()
}
fn respell(r: &mut Rng, s: &str, how: usize) -> String {
    match how {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        2 => s.to_ascii_uppercase(),
        _ => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}

pub fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let n = (v[0] as usize) << 16 | (v[1] as usize) << 8 | v[2] as usize;
        s.push(A[n >> 18] as char);
        s.push(A[n >> 12 & 63] as char);
        s.push(if c.len() > 1 { A[n >> 6 & 63] as char } else { '=' });
        s.push(if c.len() > 2 { A[n & 63] as char } else { '=' });
    }
    s
}

pub fn query(r: &mut Rng, kind: usize) -> String {
    match kind {
        0 => String::new(),
        1 => "?".into(),
        2 => format!("?{}={}", ident(r, 3), ident(r, 5)),
        3 => format!("?{}", pairs(r, 8, "#")),
        4 => format!("?{}", pairs(r, 8, "#=")),
        6 => format!("?{}", many_pairs(r)),
        7 => { let n = r.range(300, 5000); format!("?k={}&{}=1&z=2", "q".repeat(n), "n".repeat(n % 290 + 1)) }
        _ => "?&&=&=v&k&k=&k=a=b&&k2=c&".into(),
    }
}
pub fn pairs(r: &mut Rng, max: usize, no: &str) -> String {
    let n = r.below(max + 1);
    let names: Vec<String> = (0..3).map(|_| text(r, 4, &format!("&=?# \t{}", no))).collect();
    let mut out = vec![];
    for _ in 0..n {
        let k = if r.chance(1, 2) { r.pick(&names).clone() } else { text(r, 5, &format!("&=# \t{}", no)) };
        out.push(match r.below(5) {
            0 => k,
            1 => format!("{}=", k),
            2 => String::new(),
            _ => format!("{}={}", k, text(r, 8, &format!("&# \t{}", no.replace('=', "")))),
        });
    }
    out.join("&")
}

/// Tens to hundreds of pairs: of different names, of few names, or of one.
fn many_pairs(r: &mut Rng) -> String {
    let n = *r.pick(&[40usize, 70, 140, 270, 300]);
    let kinds = *r.pick(&[1usize, 7, 1000, 1000]);
    (0..n).map(|i| format!("k{}=v{}", i % kinds, i)).collect::<Vec<_>>().join("&")
}
fn names_of(b: &[u8]) -> Vec<String> {
    let s = String::from_utf8_lossy(b).to_string();
    let mut set: BTreeSet<String> = s.split(|c| "?&=#\r\n ".contains(c)).map(|x| x.to_string()).collect();
    set.extend(s.split(|c| "?&=#\r\n ".contains(c)).map(|x| x.to_ascii_uppercase()).take(6));
    set.insert("nosuch".into());
    let all: Vec<String> = set.into_iter().filter(|x| x.len() <= 300).collect();
    let step = all.len() / 60 + 1;
    all.iter().rev().step_by(step).cloned().collect()
}

/// Very many bytes, millions of them.
fn crowd(r: &mut Rng, most: usize) -> Vec<u8> {
    let n = r.range(most / 4, most);
    let k = r.below(26) as u8;
    (0..n).map(|i| if i % 6007 == 600 { b'\n' } else { b'a' + ((i >> 10) as u8).wrapping_add(i as u8).wrapping_add(k) % 26 }).collect()
}

fn content(r: &mut Rng, boundary: &str, kind: usize, utf8: bool) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    match kind {
        0 => {}
        1 => out.extend_from_slice(text(r, 12, "").as_bytes()),
        2 | 3 => for _ in 0..r.range(1, 8) {
            let piece: Vec<u8> = match r.below(12) {
                0 => b"\r\n".to_vec(), 1 => b"\n".to_vec(), 2 => b"\r".to_vec(), 3 => b"--".to_vec(),
                4 => format!("x--{}", boundary).into_bytes(), 5 => format!("--{}", &boundary[..boundary.len() - 1]).into_bytes(),
                6 => format!(" --{}--", boundary).into_bytes(), 7 => boundary.as_bytes().to_vec(), 8 => b"\r\n\r\n".to_vec(),
                9 => b"Content-Disposition: form-data; name=\"zz\"".to_vec(), 10 => b"\r\n--".to_vec(),
                _ => ident(r, 4).into_bytes(),
            };
            out.extend(piece);
        },
        4 => {
            let n = r.range(1, 200);
            out = r.bytes(n);
        }
        6 => out = crowd(r, 9_000_000),
        _ => {
            let n = if r.chance(1, 20) { r.range(500_000, 1_500_000) } else { r.range(1000, 40000) };
            // sometimes a single line
            out = if r.chance(1, 3) { r.bytes(n) } else if r.chance(1, 2) { (0..n).map(|i| b'a' + (i % 25) as u8).collect() } else { (0..n).map(|i| if i % 61 == 60 { b'\n' } else { b'a' + (i % 26) as u8 }).collect() };
        }
    }
    if utf8 && std::str::from_utf8(&out).is_err() {
        out = out.iter().map(|b| b & 127).collect();
    }
    out
}
/// no line of the content may begin with the delimiter
fn delimits(c: &[u8], boundary: &str) -> bool {
    let d = format!("--{}", boundary).into_bytes();
    c.split(|b| *b == b'\n').any(|l| l.starts_with(&d))
}

fn multipart(r: &mut Rng, m: &mut Msg, parts: (usize, usize), big: bool) -> (Vec<u8>, String) {
    let boundary = match r.below(5) {
        0 => "b".to_string(), 1 => format!("----WebKit{}", ident(r, 16)), 2 => "-".repeat(r.range(1, 26)) + &ident(r, if parts.0 > 0 { 44 } else { 8 }),
        3 => format!("{}'()+_,-./:=?{}", ident(r, 3), ident(r, 3)), _ => ident(r, 40),
    };
    let quoted = boundary.contains(|c| "()/:=?,".contains(c)) || r.chance(1, 4);
    let mut names: Vec<String> = vec![ident(r, 3), ident(r, 3), text(r, 10, "\"\\\t"), "a;b=c".into(), "name".into(), "filename".into()];
    let bulk = parts.0 > 0;
    if bulk {
        names.extend((0..r.range(1, parts.1)).map(|i| format!("n{}", i)));
        names.push("l".repeat(r.range(100, 600)));
    }
    let mut body = vec![];
    for _ in 0..r.range(parts.0, parts.1) {
        let mut p = Part { name: r.pick(&names).clone(), ..Default::default() };
        if r.chance(1, 2) {
            p.file = Some(if bulk && r.chance(1, 20) { "f".repeat(r.range(256, 1500)) } else { match r.below(5) { 0 => String::new(), 1 => "x; name=\"q".replace('"', "'"), 2 => "C:/d/e f.txt".into(), 3 => text(r, 12, "\"\\\t"), _ => format!("{}.txt", ident(r, 6)) } });
        }
        loop {
            let kind = if big && parts.1 == 1 { 6 } else if big && r.chance(1, 3) { 5 } else if bulk && !r.chance(1, 20) { r.below(2) } else { r.below(5) };
            p.content = content(r, &boundary, kind, p.file.is_none());
            if !delimits(&p.content, &boundary) {
                break;
            }
        }
        let cd = |r: &mut Rng, p: &Part| {
            let h = r.below(4);
            let mut ps = vec![format!("name=\"{}\"", p.name)];
            if let Some(f) = &p.file {
                ps.push(format!("filename=\"{}\"", f));
                if r.chance(1, 3) {
                    ps.reverse();
                }
            }
            let sep = *r.pick(&["; ", ";", " ; ", ";  "]);
            format!("{}:{}form-data{}{}", respell(r, "Content-Disposition", h), r.pick(&[" ", "", "  "]), sep, ps.join(sep))
        };
        let mut lines = vec![cd(r, &p).into_bytes()];
        if p.file.is_some() && r.chance(3, 4) || r.chance(1, 6) {
            let h = r.below(4);
            lines.push(format!("{}: {}", respell(r, "Content-Type", h), r.pick(&["text/plain", "application/octet-stream", "image/png", "x/y; name=\"zz\"; filename=q"])).into_bytes());
        }
        if r.chance(1, 6) {
            lines.push(b"Content-Transfer-Encoding: binary".to_vec());
        }
        if r.chance(1, 6) {
            lines.push(b"X-Name: a; name=\"wrong\"".to_vec());
        }
        if bulk && r.chance(1, 30) {
            lines.extend((0..r.range(10, 120)).map(|i| format!("X-{}: {}", i, i).into_bytes()));
        }
        if r.chance(1, 3) {
            lines.reverse();
        }
        p.lines = lines;
        body.extend_from_slice(format!("--{}\r\n", boundary).as_bytes());
        for l in &p.lines {
            body.extend_from_slice(l);
            body.extend_from_slice(b"\r\n");
        }
        body.extend_from_slice(b"\r\n");
        body.extend_from_slice(&p.content);
        body.extend_from_slice(b"\r\n");
        m.parts.push(p);
    }
    m.boundary = boundary.clone().into_bytes();
    m.tail = r.pick(&[&b""[..], b"\r\n", b"\r\nepilogue --x\r\n", b"\n"]).to_vec();
    body.extend_from_slice(format!("--{}--", boundary).as_bytes());
    body.extend_from_slice(&m.tail);
    let q = if quoted { format!("\"{}\"", boundary) } else { boundary };
    let ct = match r.below(4) { 0 => format!("multipart/form-data;boundary={}", q), 1 => format!("multipart/form-data; charset=utf-8; boundary={}", q), 2 => format!("multipart/form-data; boundary={}; charset=utf-8", q), _ => format!("multipart/form-data; boundary={}", q) };
    let mut all: BTreeSet<String> = names.iter().cloned().collect();
    all.extend(names.iter().map(|n| n.to_ascii_uppercase()));
    all.extend(["zz".to_string(), "wrong".into(), "nosuch".into(), "".into()]);
    m.names = all.into_iter().collect();
    (body, ct)
}

fn s<'a>(d: &'a Value, k: &str) -> &'a str {
    d[k].as_str().unwrap_or("")
}

/// The bytes of a descriptor.
pub fn build(d: &Value, r: &mut Rng) -> Msg {
    let mut m = Msg { keep: s(d, "conn") == "keep-alive", ..Default::default() };
    let eol = if s(d, "eol") == "lf" { "\n" } else { "\r\n" };
    let q = query(r, d["q"].as_u64().unwrap_or(0) as usize);
    let frag = if d["frag"].as_bool().unwrap_or(false) { format!("#{}", text(r, 5, " \t")) } else { String::new() };
    let path = match s(d, "path") {
        "a" => "/a".to_string(), "x" => format!("/a/{}", text(r, 6, " /?#\t")), "f" => "/f/b/c".into(), "a/" => "/a/".into(),
        "long" => format!("/a/{}", "s".repeat(*r.pick(&[130usize, 256, 300, 1025, 2049, 4100, 9000]))),
        "none" => r.pick(&["/nosuch", "/", "/a/b/c", "/f/b", "/f/b/c/", "//a", "a", "", "*", "http://h/a", "/A", "/f//c"]).to_string(),
        _ => "/a".into(),
    };
    let line = match s(d, "line") {
        "ok" => format!("{} {}{}{} {}", s(d, "m"), path, q, frag, s(d, "v")),
        "noversion" => format!("{} {}{}", s(d, "m"), path, q),
        "space" => format!("{} {}{} {} {}", s(d, "m"), path, q, s(d, "v"), ident(r, 3)),
        "spacepath" => format!("{} {} x{} {}", s(d, "m"), path, q, s(d, "v")),
        "word" => ident(r, 8),
        _ => format!("{} {}{} {}", s(d, "m"), path, q, s(d, "v")),
    };
    let mut body: Vec<u8> = vec![];
    let mut ct = None;
    match s(d, "body") {
        "form" => {
            let t = pairs(r, 8, "");
            body = t.into_bytes();
            ct = Some(r.pick(&["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "application/x-www-form-urlencoded;charset=UTF-8"]).to_string());
        }
        "manyform" => {
            let t = many_pairs(r);
            m.pairs = t.split('&').map(|p| p.split_once('=').unwrap()).map(|(k, v)| (k.to_string(), v.to_string())).collect();
            body = t.into_bytes();
            ct = Some("application/x-www-form-urlencoded".to_string());
        }
        "manymulti" => { let n = *r.pick(&[20usize, 40, 70, 130, 260]); let (b, t) = multipart(r, &mut m, (n, n + 9), false); body = b; ct = Some(t) }
        "bigform" => {
            let n = *r.pick(&[900usize, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 5000, 20000, 70000]);
            let n = if r.chance(1, 12) { *r.pick(&[300_000usize, 1_048_570, 2_500_000]) } else { n };
            let n = n + r.below(3);
            let k = ident(r, 3);
            let v: String = (0..n).map(|_| *r.pick(&['a', 'b', '=', '\n', '\r', ' ', 'z'])).collect();
            body = format!("{}={}", k, v).into_bytes();
            m.pairs = vec![(k, v)];
            ct = Some("application/x-www-form-urlencoded".to_string());
        }
        "multi" => { let (b, t) = multipart(r, &mut m, (0, 4), false); body = b; ct = Some(t) }
        "bigmulti" => { let (b, t) = multipart(r, &mut m, (0, 5), true); body = b; ct = Some(t) }
        "hugemulti" => { let (b, t) = multipart(r, &mut m, (1, 1), true); body = b; ct = Some(t) }
        "hugeform" => {
            let (k, v) = (ident(r, 3), String::from_utf8(crowd(r, 9_000_000)).unwrap());
            body = format!("{}={}", k, v).into_bytes();
            m.pairs = vec![(k, v)];
            ct = Some("application/x-www-form-urlencoded".to_string());
        }
        "rawmost" => { body = crowd(r, 800_000); m.noforms = true }
        "raw" => {
            let n = r.range(1, 120);
            body = r.bytes(n);
            m.noforms = true;
            if r.chance(1, 2) { ct = Some("application/json".into()) }
        }
        "like" => { body = b"GET /probe HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(); m.noforms = true; }
        _ => {}
    }
    let mut hs: Vec<(String, String)> = vec![];
    if d["host"].as_bool().unwrap_or(true) {
        hs.push(("Host".into(), r.pick(&["localhost:7878", "h", "", "example.com"]).to_string()));
    }
    match s(d, "conn") { "" | "none" => {} c => hs.push(("Connection".into(), c.to_string())) }
    match s(d, "up") { "" | "none" => {} c => hs.push(("Upgrade".into(), c.to_string())) }
    match s(d, "auth") {
        "ok" => { let u = text(r, 8, ":"); let u = if u.is_empty() { "u".into() } else { u }; let t = format!("{}:{}", u, text(r, 10, ""));
                  hs.push(("Authorization".into(), format!("{} {}", r.pick(&["Basic", "basic", "BASIC"]), b64(t.as_bytes())))) }
        "long" => { let t = format!("{}:{}", "u".repeat(*r.pick(&[1usize, 100, 300, 3000])), "p".repeat(*r.pick(&[0usize, 100, 257, 1100, 9000])));
                    hs.push(("Authorization".into(), format!("Basic {}", b64(t.as_bytes())))) }
        "nocolon" => hs.push(("Authorization".into(), format!("Basic {}", b64(b"usernocolon")))),
        "nouser" => hs.push(("Authorization".into(), format!("Basic {}", b64(b":pw")))),
        "bad64" => hs.push(("Authorization".into(), format!("Basic {}", r.pick(&["!!!!", "dXNlcjpwYXNz*A==", "dXNlcg", "=", "dXNlcjpwYXNzd29yZA=", "====", "dXNl cjpw", "dXNl=jpw", "dXNlcjpw-", "dXN=cjpw", "dXNlcjp=cHc=", "dXNlcjpw====", " dXNlcjpw", "dXNlcjpwYR=="])))),
        "latin" => hs.push(("Authorization".into(), format!("Basic {}", b64(b"us\xe9r:pw")))),
        "bearer" => hs.push(("Authorization".into(), r.pick(&["Bearer abc.def", "Basic", "", "Digest x=\"y\"", "Basi", "BasicXabc=", "B"]).to_string())),
        _ => {}
    }
    match s(d, "cookie") {
        "one" => { let n = ident(r, 4); let how = r.below(4); hs.push(("Cookie".into(), format!("{}={}", respell(r, &n, how), ident(r, 6)))) }
        "many" => { let n = r.range(2, 6); let v: Vec<String> = (0..n).map(|_| { let n = ident(r, 2); let how = r.below(4); format!("{}={}", respell(r, &n, how), text(r, 8, ";,\t ")) }).collect();
                    hs.push(("Cookie".into(), v.join(r.pick(&["; ", ";", " ; ", ";;"])))) }
        "long" => { let n = r.range(1, 4); let v: Vec<String> = (0..n).map(|i| format!("l{}={}", i, "c".repeat(r.range(1, 9) * *r.pick(&[30usize, 260, 600, 2100])))).collect();
                    hs.push(("Cookie".into(), v.join("; "))) }
        "bulk" => { let n = *r.pick(&[20usize, 33, 60, 110]); let v: Vec<String> = (0..n).map(|i| format!("c{}={}", if r.chance(1, 9) { i / 2 } else { i }, ident(r, 3))).collect();
                    hs.push(("Cookie".into(), v.join("; "))) }
        "empty" => hs.push(("Cookie".into(), r.pick(&["", ";", "a=", "=b", "; a=b;"]).to_string())),
        "bad" => hs.push(("Cookie".into(), r.pick(&["novalue", "a=b; c", "c; a=b"]).to_string())),
        _ => {}
    }
    if let Some(t) = ct {
        hs.push(("Content-Type".into(), t));
    }
    let cl = s(d, "cl");
    let sent = body.len();
    match cl {
        "ok" => hs.push(("Content-Length".into(), sent.to_string())),
        "zero" => { hs.push(("Content-Length".into(), "0".into())); body.clear() }
        "short" => { // fewer bytes arrive than announced
            hs.push(("Content-Length".into(), (sent + r.range(1, 50)).to_string()));
            m.fin = true;
        }
        "cut" => {
            hs.push(("Content-Length".into(), sent.max(1).to_string()));
            let n = r.below(sent.max(1));
            body.truncate(n);
            m.fin = true;
        }
        "rest" => { hs.push(("Content-Length".into(), "-1".into())); m.fin = true }
        "bad" => { hs.push(("Content-Length".into(), r.pick(&["abc", "", "1 2", "0x10", "1.5", "-2", "-7", "99999999999999999999999", "1,1", "12abc"]).to_string())); }
        _ => { body.clear() }
    }
    if body.is_empty() && !matches!(cl, "rest") {
        m.pairs.clear();
    }
    let many = d["many"].as_u64().unwrap_or(0) as usize;
    let kinds = *r.pick(&[1usize, 5, 1000, 1000]);
    hs.extend((0..many).map(|i| (format!("X-N{}", i % kinds), format!("v{}", i))));
    if d["wide"].as_bool().unwrap_or(false) {
        let n = if r.chance(1, 4) { r.range(66_000, 130_000) } else { r.range(9000, 40000) };
        hs.push(("X-Wide".into(), "w".repeat(n)));
        hs.push(("X-".to_string() + &"n".repeat(n / 100), "x".into()));
    }
    for _ in 0..d["extra"].as_u64().unwrap_or(0) {
        let n = *r.pick(&["X-A", "x-a", "X-B", "Accept", "User-Agent", "X-Long"]);
        let v = if n == "X-Long" { let k = if r.chance(1, 60) { r.range(2500, 9000) } else { r.range(200, 1500) }; "v".repeat(k) } else { text(r, 20, "\t").trim().to_string() };
        hs.push((n.to_string(), v));
    }
    if r.chance(1, 4) && !hs.is_empty() { // a repeated name
        let h = hs[r.below(hs.len())].clone();
        if h.0.starts_with("X-") || h.0 == "Cookie" || h.0 == "Accept" {
            hs.push((h.0, if r.chance(1, 2) { h.1 } else { format!("n={}", ident(r, 4)) }));
        }
    }
    let how = match s(d, "hc") { "low" => 1, "up" => 2, "mix" => 3, _ => 0 };
    // one spelling per name, so that it is clear which one counts
    let mut spelled: Vec<(String, String)> = vec![];
    for (n, _) in &hs {
        if !spelled.iter().any(|(k, _)| k.eq_ignore_ascii_case(n)) || n.starts_with("X-") || n.starts_with("x-") {
            let t = respell(r, n, how);
            spelled.push((n.clone(), t));
        }
    }
    if r.chance(1, 2) {
        for i in (1..hs.len()).rev() {
            let j = r.below(i + 1);
            // repeated names keep their order
            if hs[i].0 != hs[j].0 { hs.swap(i, j) }
        }
    }
    let mut head = line + eol;
    for (n, v) in &hs {
        let t = spelled.iter().find(|(k, _)| k == n).map(|(_, t)| t.clone()).unwrap_or(n.clone());
        head += &format!("{}:{}{}{}{}", t, r.pick(&[" ", "", "  ", "\t", " "]), v, r.pick(&["", "", "", " ", "\t "]), eol);
    }
    if d["nocolon"].as_bool().unwrap_or(false) {
        head += &format!("{}{}", ident(r, 6), eol);
    }
    head += eol;
    m.head = head.into_bytes();
    if s(d, "line") == "cut" || d["cuthead"].as_bool().unwrap_or(false) {
        let keep = r.range(0, m.head.len() - 1);
        // never up to the end of the head
        m.head.truncate(keep);
        while head_end(&m.head).is_some() { m.head.pop(); }
        body.clear();
        m.fin = true;
    }
    if m.names.is_empty() {
        let mut both = m.head.split(|b| *b == b'\n').next().unwrap_or(b"").to_vec();
        both.push(b' ');
        if body.len() < 400 {
            both.extend_from_slice(&body);
        } else {
            both.extend_from_slice(m.pairs.first().map(|p| p.0.as_bytes()).unwrap_or(b""));
        }
        m.names = names_of(&both);
    } else {
        let n = names_of(m.head.split(|b| *b == b'\n').next().unwrap_or(b""));
        m.names.extend(n);
        m.names.sort();
        m.names.dedup();
    }
    m.file_first = r.chance(1, 2);
    m.body = body;
    let total = m.head.len() + m.body.len();
    m.pause = *r.pick(&[0u64, 0, 1, 1, 3]);
    m.segs = match s(d, "seg") {
        "one" => vec![],
        "bytes" => { m.pause = 0; vec![1; total.min(400)] }
        "head" => vec![m.head.len()],
        "head-1" => vec![m.head.len().saturating_sub(1), 1],
        "head-2" => vec![m.head.len().saturating_sub(2), 1, 1],
        "head-3" => vec![m.head.len().saturating_sub(3), 1, 1, 1],
        "head+1" => vec![m.head.len() + 1],
        "1024" => vec![1024; 8],
        "1023" => vec![1023; 3],
        _ => { let n = r.range(1, 8); (0..n).map(|_| r.range(1, total.max(2) / 2 + 1)).collect() }
    };
    if m.fin && r.chance(1, 2) && m.segs.len() > 12 { m.segs.truncate(12) }
    m
}

pub fn head_end(b: &[u8]) -> Option<usize> {
    (0..b.len()).find(|&i| b[i] == b'\n' && ((i >= 1 && b[i - 1] == b'\n') || (i >= 2 && b[i - 1] == b'\r' && b[i - 2] == b'\n'))).map(|i| i + 1)
}

pub fn send_segs(c: &mut Conn, all: &[u8], segs: &[usize], pause: u64) {
    let mut at = 0;
    for n in segs {
        if at >= all.len() {
            break;
        }
        let to = (at + (*n).max(1)).min(all.len());
        if !c.send(&all[at..to]) {
            return;
        }
        at = to;
        if pause > 0 {
            std::thread::sleep(Duration::from_millis(pause));
        } else {
            std::thread::sleep(Duration::from_micros(40));
        }
    }
    if at < all.len() {
        c.send(&all[at..]);
    }
}

fn run_case(l: &Lane, case: &Case) -> Vec<Value> {
    let mut out = vec![json!({"e": "case", "p": case.p})];
    let mut c = Conn::open(l.srv.port);
    let half = b"GET /probe HTTP/1.1\r\nHost: h\r\nX-Half: ";
    let mut by = None;
    if case.others {
        let mut b = Conn::open(l.srv.port);
        b.send(half);
        by = Some(b);
    }
    let port = c.s.local_addr().map(|a| a.port()).unwrap_or(0);
    let n = case.msgs.len();
    for (k, m) in case.msgs.iter().enumerate() {
        *lock(&l.probes) = Probes { names: m.names.clone(), file_first: m.file_first, forms: !m.noforms };
        lock(&l.seen).clear();
        let mut all = m.head.clone();
        all.extend_from_slice(&m.body);
        send_segs(&mut c, &all, &m.segs, m.pause);
        if m.fin {
            c.fin();
        }
        let a = c.read(false);
        let more = m.keep && !m.fin && a.end == "ok" && a.status == 200;
        let closed = if a.end != "ok" { a.end.clone() }
            else if more && k + 1 < n { if c.pending() > 0 { "data".into() } else { "open".into() } }
            else if more { match c.wait_end(Duration::from_millis(5)).as_str() { "timeout" => "open".to_string(), x => x.to_string() } }
            else { let w = c.wait_end(patience()); if w == "timeout" { missing() } w };
        let mut probe = true;
        if case.others {
            let r = once(l.srv.port, b"GET /probe HTTP/1.1\r\nHost: h\r\n\r\n");
            probe = r.end == "ok" && r.status == 200 && r.body == b"probe";
        }
        let runs = lock(&l.seen).clone();
        let lit = m.body.len() <= 700;
        out.push(json!({"e": "req", "k": k + 1, "head": bytes(&m.head), "blen": m.body.len(), "lit": lit,
            "body": if lit { bytes(&m.body) } else { json!([]) }, "fin": m.fin, "port": port, "nofm": m.noforms,
            "pairs": m.pairs.iter().map(|(k, v)| json!({"n": sbytes(k), "v": val(v.as_bytes())})).collect::<Vec<_>>(),
            "parts": m.parts.iter().map(|p| json!({"l": p.lines.iter().map(|x| bytes(x)).collect::<Vec<_>>(), "n": sbytes(&p.name), "h": p.file.is_some(),
                "f": sbytes(p.file.as_deref().unwrap_or("")), "s": p.content.len(), "v": val(&p.content)})).collect::<Vec<_>>(),
            "bnd": bytes(&m.boundary), "tail": bytes(&m.tail), "names": m.names.iter().map(|x| sbytes(x)).collect::<Vec<_>>(),
            "runs": runs, "end": a.end, "status": a.status, "got": if a.body.len() < 200 { bytes(&a.body) } else { json!([0]) },
            "closed": closed, "probe": probe}));
        if !more {
            break;
        }
    }
    if let Some(mut b) = by {
        b.send(b"1\r\n\r\n");
        let r = b.read(true);
        let ok = r.end == "ok" && r.status == 200 && r.body == b"probe";
        out.push(json!({"e": "other", "ok": ok}));
    }
    out
}

// ---------------------------------------------------------------- descriptors
pub fn descriptor(r: &mut Rng, p: &str) -> Value {
    let m = if r.chance(1, 2) { *r.pick(&["POST", "PUT", "PATCH"]) } else { *r.pick(&METHODS) };
    let entity = ["POST", "PUT", "PATCH"].contains(&m);
    let body = if entity && r.chance(2, 3) { *r.pick(&["form", "form", "bigform", "multi", "raw", "like"]) } else { *r.pick(&["none", "none", "none", "form", "like"]) };
    let mut d = json!({
        "m": m, "v": *r.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]), "eol": *r.pick(&["crlf", "crlf", "crlf", "lf"]),
        "line": "ok", "path": *r.pick(&["a", "x", "f"]), "q": r.below(6), "frag": r.chance(1, 6), "hc": *r.pick(&["std", "low", "up", "mix"]),
        "host": true, "conn": *r.pick(&["none", "close", "keep-alive", "Upgrade", "keep-alive, Upgrade", "upgrade", "keep-alive, foo, upgrade", "a, b,c,Upgrade ,d", ",,upgrade", "upgraded, x"]), "up": *r.pick(&["none", "websocket", "WebSocket", "h2c"]),
        "auth": *r.pick(&["none", "ok", "bearer"]), "cookie": *r.pick(&["none", "one", "many", "empty"]), "body": body,
        "cl": if body == "none" { *r.pick(&["none", "zero"]) } else { "ok" }, "extra": r.below(4),
        "seg": *r.pick(&["one", "bytes", "head", "head-1", "head-2", "head-3", "head+1", "1024", "1023", "random", "random", "random"])});
    if entity && body != "none" && r.chance(1, 10) {
        d["cl"] = json!("rest");
        d["conn"] = json!("close");
    }
    if p == "bulk" {
        for (k, v) in [("extra", json!(1)), ("line", json!("ok")), ("auth", json!("ok")), ("cl", json!(if d["body"] == "none" { "none" } else { "ok" }))] { d[k] = v }
    }
    match p {
        "C09" => fault(r, &mut d),
        "C14" => {
            d["q"] = json!(*r.pick(&[1usize, 3, 4, 5]));
            d["m"] = json!(*r.pick(&["GET", "POST", "PUT", "PATCH", "DELETE"]));
            let e = ["POST", "PUT", "PATCH"].contains(&d["m"].as_str().unwrap());
            d["body"] = json!(if e { *r.pick(&["form", "form", "form", "none", "multi"]) } else { *r.pick(&["none", "form"]) });
            d["cl"] = json!(if d["body"] == "none" { "none" } else { "ok" });
            d["auth"] = json!("none");
            d["extra"] = json!(0);
            d["seg"] = json!(*r.pick(&["one", "one", "random"]));
        }
        "C15" => {
            d["m"] = json!(*r.pick(&["POST", "PUT", "PATCH"]));
            d["body"] = json!(if r.chance(1, 8) { "bigmulti" } else { "multi" });
            d["cl"] = json!("ok");
            d["q"] = json!(*r.pick(&[0usize, 0, 2]));
            d["auth"] = json!("none");
            d["extra"] = json!(0);
            d["seg"] = json!(*r.pick(&["one", "head", "random", "1024"]));
        }
        _ => {}
    }
    d
}
fn fault(r: &mut Rng, d: &mut Value) {
    d["extra"] = json!(r.below(2));
    if d["body"] == "bigform" { d["body"] = json!("form") }
    d["seg"] = json!(*r.pick(&["one", "one", "head", "random", "head-1"]));
    for _ in 0..(if r.chance(1, 5) { 2 } else { 1 }) {
        match r.below(12) {
            0 => d["m"] = json!(*r.pick(&["get", "GETT", "FOO", "P", "POSTS", "Put", "OPTION", "HEADERS", "UNLINKED", "\u{7f}GET"])),
            1 => d["v"] = json!(*r.pick(&["HTTP/2.0", "HTTP/1.2", "http/1.1", "HTTP/1.1.1", "FTP/1.0", "HTTP/0.9", "X", ""])),
            2 => d["line"] = json!(*r.pick(&["noversion", "space", "spacepath", "word"])),
            3 => d["path"] = json!("none"),
            4 => d["host"] = json!(false),
            5 => d["auth"] = json!(*r.pick(&["nocolon", "nouser", "bad64", "latin"])),
            6 => d["cookie"] = json!("bad"),
            7 => { d["m"] = json!(*r.pick(&["POST", "PUT", "PATCH"])); d["cl"] = json!("bad"); d["body"] = json!(*r.pick(&["none", "form"])) }
            8 | 9 => { d["m"] = json!(*r.pick(&["POST", "PUT", "PATCH"])); d["cl"] = json!(*r.pick(&["short", "cut"])); d["body"] = json!(*r.pick(&["form", "raw", "none", "multi"])) }
            10 => d["cuthead"] = json!(true),
            _ => d["nocolon"] = json!(true),
        }
    }
    // a fault in the head leaves the body unread; it is sent with the head so that it has arrived
    if d["cl"] != "short" && d["cl"] != "cut" { d["seg"] = json!("one") }
}

/// Arbitrary bytes: mutations of a request, or none of it; everything fits one segment and is followed by FIN.
fn fuzz(r: &mut Rng) -> Msg {
    let mut d = descriptor(r, "C09");
    d["extra"] = json!(0);
    if r.chance(1, 2) { d["body"] = json!("none"); d["cl"] = json!("none") }
    let mut m = build(&d, r);
    let mut b = m.head.clone();
    b.extend_from_slice(&m.body);
    b.truncate(900);
    match r.below(10) {
        0 => { let n = r.range(0, 300); b = r.bytes(n) }
        1 => { let n = r.below(b.len() + 1); b.truncate(n) }
        2 => { let n = r.range(1, 60); b = (0..n).map(|_| *r.pick(b"\r\n :/GET1")).collect() }
        3 => b.clear(),
        _ => for _ in 0..r.range(1, 4) {
            if b.is_empty() { break }
            let i = r.below(b.len());
            match r.below(5) {
                0 => { b.remove(i); }
                1 => b.insert(i, *r.pick(b"\r\n :/?#&=;,%\x00\x80\xff")),
                2 => b[i] = *r.pick(b"\r\n :/?#&=;,%\x00\x80\xffaZ0"),
                3 => { let j = r.below(b.len()); let (x, y) = (i.min(j), i.max(j)); let t = b[x..y].to_vec(); b.splice(x..x, t.into_iter().take(80)); }
                _ => { let j = (i + r.range(1, 20)).min(b.len()); b.drain(i..j); }
            }
        },
    }
    b.truncate(1000);
    let cut = head_end(&b).unwrap_or(b.len());
    m = Msg { body: b[cut..].to_vec(), head: b[..cut].to_vec(), fin: true, noforms: true, keep: false, names: names_of(&b[..cut.min(200)]), ..Default::default() };
    m
}

/// More of something than a request usually has; `k` runs through the kinds.
fn bulk(r: &mut Rng, p: &str, k: usize) -> Value {
    let mut d = descriptor(r, if p == "C08" || p == "C10" { "bulk" } else { p });
    d["seg"] = json!(*r.pick(&["one", "random", "1024"]));
    let kind = match p { "C14" => *r.pick(&[0usize, 1, 2]) , "C15" => if k % 8 == 7 { 12 } else { 3 }, _ => k % 12 };
    match kind {
        10 => { d["m"] = json!("POST"); d["body"] = json!("hugeform"); d["cl"] = json!("ok") }
        11 => { d["m"] = json!(*r.pick(&["GET", "DELETE", "HEAD", "OPTIONS"])); d["body"] = json!("rawmost"); d["cl"] = json!("ok") }
        12 => { d["m"] = json!("PUT"); d["body"] = json!("hugemulti"); d["cl"] = json!("ok") }
        8 => d["cookie"] = json!("long"),
        9 => d["auth"] = json!("long"),
        0 => d["q"] = json!(6),
        1 => d["q"] = json!(7),
        2 => { d["m"] = json!("POST"); d["body"] = json!("manyform"); d["cl"] = json!("ok") }
        3 => { d["m"] = json!("PUT"); d["body"] = json!("manymulti"); d["cl"] = json!("ok") }
        4 => d["cookie"] = json!("bulk"),
        5 => d["many"] = json!(*r.pick(&[60, 101, 130, 260, 300])),
        6 => d["wide"] = json!(true),
        _ => d["path"] = json!("long"),
    }
    d
}

pub fn run(cfg: &Cfg, p: &'static str) {
    let mut r = Rng::new(cfg.seed ^ p.bytes().fold(7u64, |a, b| a * 31 + b as u64));
    let mut cases: Vec<Case> = vec![];
    for d in cfg.behaviours() {
        let ds: Vec<Value> = match d { Value::Array(a) => a, x => vec![x] };
        let msgs = ds.iter().map(|d| build(d, &mut r)).collect();
        cases.push(Case { p, msgs, others: p == "C09" });
    }
    let n = match p { "C08" => cfg.scale(900, 6000), "C09" => cfg.scale(1500, 8000), "C10" => cfg.scale(350, 2500), "C14" => cfg.scale(1300, 8000), _ => cfg.scale(1200, 8000) };
    for _ in 0..n {
        let msgs = if p == "C10" {
            let len = r.range(1, 6);
            (0..len).map(|i| {
                let kind = if r.chance(1, 6) { "C09" } else { "C08" };
                let mut d = descriptor(&mut r, kind);
                if d["body"] == "bigform" && r.chance(2, 3) { d["body"] = json!("form") }
                if i + 1 < len || r.chance(1, 2) { d["conn"] = json!("keep-alive"); if d["cl"] == "rest" { d["cl"] = json!("ok") } }
                else { d["conn"] = json!(*r.pick(&["none", "close", "Keep-Alive", "keep-alive, Upgrade", "keepalive"])) }
                build(&d, &mut r)
            }).collect()
        } else if p == "C09" && r.chance(1, 2) {
            vec![fuzz(&mut r)]
        } else {
            let d = descriptor(&mut r, p);
            let mut v = vec![];
            // not always the first request of its connection
            if p != "C09" && r.chance(1, 6) {
                for _ in 0..r.range(1, 2) {
                    let mut d = descriptor(&mut r, p);
                    d["conn"] = json!("keep-alive");
                    if d["body"] == "bigform" { d["body"] = json!("form") }
                    if d["cl"] == "rest" { d["cl"] = json!("ok") }
                    v.push(build(&d, &mut r));
                }
            }
            v.push(build(&d, &mut r));
            v
        };
        cases.push(Case { p, msgs, others: p == "C09" });
    }
    for k in 0..cfg.scale(24, 120) {
        let msgs = if p == "C10" {
            // one connection for a hundred requests and more
            if k >= cfg.scale(6, 30) { break }
            let len = *r.pick(&[65usize, 101, 130, 260, 300]);
            (0..len).map(|i| {
                let mut d = descriptor(&mut r, "bulk");
                for (k, v) in [("extra", json!(0)), ("q", json!(i % 5)), ("cookie", json!("none")), ("auth", json!("none")), ("frag", json!(false)), ("seg", json!("one")),
                    ("body", json!(if i % 9 == 8 { "form" } else { "none" })), ("cl", json!(if i % 9 == 8 { "ok" } else { "none" })), ("conn", json!("keep-alive"))] { d[k] = v }
                if i % 40 == 7 { d["m"] = json!("GET"); d["body"] = json!("rawmost"); d["cl"] = json!("ok") }
                if i + 1 == len { d["conn"] = json!("close") }
                build(&d, &mut r)
            }).collect()
        } else {
            let d = bulk(&mut r, p, k);
            vec![build(&d, &mut r)]
        };
        cases.push(Case { p, msgs, others: p == "C09" });
    }
    let lanes: Vec<Lane> = (0..8).map(lane).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Mutex<Vec<Vec<Value>>> = Mutex::new(vec![vec![]; cases.len()]);
    std::thread::scope(|s| {
        for l in &lanes {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= cases.len() {
                    return;
                }
                let v = run_case(l, &cases[i]);
                out.lock().unwrap()[i] = v;
            });
        }
    });
    cfg.write_trace(&out.into_inner().unwrap().concat());
}
