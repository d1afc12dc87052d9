//! C17, C18: URLs and responses given to the client; a listener records the request and plays the response.
use crate::http::{ident, text};
use crate::util::*;
use serde_json::{json, Value};
use starry::{HttpClient, Response};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::mpsc;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- Debug output as a tree
#[derive(Debug, Clone)]
enum Tree {
    Atom(String),
    Text(String),
    List(Vec<Tree>),
    Map(Vec<(Tree, Tree)>),
    Node(Vec<(String, Tree)>),
}
struct Scan<'a> {
    s: &'a [char],
    i: usize,
}
impl Scan<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_whitespace() { self.i += 1 }
    }
    fn at(&self) -> char {
        self.s.get(self.i).copied().unwrap_or('\0')
    }
    fn quoted(&mut self) -> Option<String> {
        let mut out = String::new();
        self.i += 1;
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                '"' => return Some(out),
                '\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    out.push(match e {
                        'n' => '\n', 'r' => '\r', 't' => '\t', '0' => '\0',
                        'u' => {
                            let end = (self.i..self.s.len()).find(|k| self.s[*k] == '}')?;
                            let hex: String = self.s[self.i + 1..end].iter().collect();
                            self.i = end + 1;
                            char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?
                        }
                        'x' => { let hex: String = self.s.get(self.i..self.i + 2)?.iter().collect(); self.i += 2; u8::from_str_radix(&hex, 16).ok()? as char }
                        c => c,
                    });
                }
                c => out.push(c),
            }
        }
    }
    fn value(&mut self) -> Option<Tree> {
        self.ws();
        match self.at() {
            '"' => Some(Tree::Text(self.quoted()?)),
            'b' if self.s.get(self.i + 1) == Some(&'"') => { self.i += 1; Some(Tree::Text(self.quoted()?)) }
            '[' => { self.i += 1; Some(Tree::List(self.list(']')?)) }
            '(' => { self.i += 1; Some(Tree::List(self.list(')')?)) }
            '{' => {
                self.i += 1;
                let mut m = vec![];
                loop {
                    self.ws();
                    if self.at() == '}' { self.i += 1; return Some(Tree::Map(m)) }
                    let k = self.value()?;
                    self.ws();
                    if self.at() == ':' {
                        self.i += 1;
                        m.push((k, self.value()?));
                    } else {
                        m.push((k, Tree::List(vec![])));
                    }
                    self.ws();
                    if self.at() == ',' { self.i += 1 }
                }
            }
            _ => {
                let from = self.i;
                while self.i < self.s.len() && !",(){}[]:".contains(self.s[self.i]) { self.i += 1 }
                if self.i == from { return None }
                let name: String = self.s[from..self.i].iter().collect::<String>().trim().to_string();
                match self.at() {
                    '(' => { self.i += 1; Some(Tree::List(self.list(')')?)) }
                    '{' => {
                        self.i += 1;
                        let mut fs = vec![];
                        loop {
                            self.ws();
                            if self.at() == '}' { self.i += 1; return Some(Tree::Node(fs)) }
                            let from = self.i;
                            while self.i < self.s.len() && self.at() != ':' { self.i += 1 }
                            let n: String = self.s[from..self.i].iter().collect::<String>().trim().to_string();
                            self.i += 1;
                            fs.push((n, self.value()?));
                            self.ws();
                            if self.at() == ',' { self.i += 1 }
                        }
                    }
                    _ => Some(Tree::Atom(name)),
                }
            }
        }
    }
    fn list(&mut self, end: char) -> Option<Vec<Tree>> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.at() == end { self.i += 1; return Some(v) }
            v.push(self.value()?);
            self.ws();
            if self.at() == ',' { self.i += 1 }
        }
    }
}
fn map_in(t: &Tree) -> Option<&Vec<(Tree, Tree)>> {
    match t {
        Tree::Map(m) => Some(m),
        Tree::List(l) => l.iter().find_map(map_in),
        Tree::Node(f) => f.iter().find_map(|(_, t)| map_in(t)),
        _ => None,
    }
}

/// What can be learnt of a response besides its body: version, code and headers, each as zero or one values.
pub fn shown(resp: &Response) -> Value {
    let s: Vec<char> = format!("{:?}", resp).chars().collect();
    let tree = Scan { s: &s, i: 0 }.value();
    let field = |n: &str| match &tree { Some(Tree::Node(f)) => f.iter().find(|(k, _)| k == n).map(|(_, t)| t.clone()), _ => None };
    let ver: Vec<Value> = match field("version") { Some(Tree::Atom(a)) => vec![sbytes(&a)], _ => vec![] };
    let code: Vec<Value> = match field("status") {
        Some(Tree::Atom(a)) => a.split(' ').next().and_then(|s| s.parse::<i64>().ok()).map(|n| json!(n)).into_iter().collect(),
        _ => vec![],
    };
    let hs: Vec<Value> = match field("header").as_ref().and_then(map_in) {
        None => vec![],
        Some(m) => {
            let mut out = vec![];
            let mut ok = true;
            for (k, v) in m {
                match (k, v) {
                    (Tree::Text(k), Tree::List(vs)) => out.push(json!({"n": sbytes(k), "vs": vs.iter().map(|v| match v { Tree::Text(s) => sbytes(s), _ => { ok = false; json!([]) } }).collect::<Vec<_>>()})),
                    (Tree::Text(k), Tree::Text(v)) => out.push(json!({"n": sbytes(k), "vs": [sbytes(v)]})),
                    _ => ok = false,
                }
            }
            if ok { vec![Value::Array(out)] } else { vec![] }
        }
    };
    json!({"ver": ver, "code": code, "hs": hs})
}

// ---------------------------------------------------------------- one exchange
struct Played {
    r: &'static str,
    resp: Option<Response>,
    conns: usize,
    elsewhere: usize,
    req: Vec<u8>,
}

fn bound(ip: &str, port: u16) -> Option<TcpListener> {
    (0..40).find_map(|k| {
        if k > 0 { std::thread::sleep(Duration::from_millis(25)) }
        TcpListener::bind((ip, port)).ok()
    })
}

/// Plays one connection: reads the request head, writes the pieces and ends the connection.
fn play(mut s: TcpStream, pieces: &[(Vec<u8>, u64)], reset: bool) -> Vec<u8> {
    let mut got = vec![];
    let mut b = [0u8; 4096];
    let until = Instant::now() + Duration::from_secs(5);
    s.set_nodelay(true).ok();
    s.set_read_timeout(Some(Duration::from_millis(200))).ok();
    while Instant::now() < until && find(&got, b"\r\n\r\n").is_none() {
        match s.read(&mut b) {
            Ok(0) => break,
            Ok(n) => got.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => (),
            Err(_) => break,
        }
    }
    for (p, pause) in pieces {
        if s.write_all(p).is_err() { break }
        if *pause > 0 { std::thread::sleep(Duration::from_micros(*pause)) }
    }
    // anything the client sent besides
    s.set_nonblocking(true).ok();
    while let Ok(n) = s.read(&mut b) {
        if n == 0 { break }
        got.extend_from_slice(&b[..n]);
    }
    if reset {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as u32) };
    }
    got
}

fn exchange(listener: &TcpListener, others: &[&TcpListener], url: &str, pieces: &[(Vec<u8>, u64)], reset: bool) -> Played {
    listener.set_nonblocking(true).expect("nonblocking");
    others.iter().for_each(|o| o.set_nonblocking(true).expect("nonblocking"));
    let (tx, rx) = mpsc::channel();
    let u = url.to_string();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(|| HttpClient::get(&u));
        let _ = tx.send(match r { Ok(Ok(resp)) => ("ok", Some(resp)), Ok(Err(_)) => ("err", None), Err(_) => ("panic", None) });
    });
    let until = Instant::now() + patience();
    let (mut conns, mut elsewhere, mut req) = (0, 0, vec![]);
    let mut end: Option<(&'static str, Option<Response>)> = None;
    loop {
        match listener.accept() {
            Ok((s, _)) => {
                s.set_nonblocking(false).ok();
                conns += 1;
                let got = play(s, pieces, reset);
                if conns == 1 { req = got }
                continue;
            }
            Err(_) => (),
        }
        for o in others {
            while o.accept().is_ok() { elsewhere += 1 }
        }
        if end.is_some() { break }
        match rx.recv_timeout(Duration::from_micros(300)) {
            Ok(x) => end = Some(x), // one more look at the listener
            Err(mpsc::RecvTimeoutError::Disconnected) => end = Some(("panic", None)),
            Err(mpsc::RecvTimeoutError::Timeout) => if Instant::now() > until { missing(); end = Some(("hang", None)) },
        }
    }
    let (r, resp) = end.unwrap();
    Played { r, resp, conns, elsewhere, req }
}

// ---------------------------------------------------------------- C17
fn user(r: &mut Rng) -> String {
    match r.below(5) { 0 => "http".into(), 1 => "https".into(), 2 => "h".into(), 3 => text(r, 8, ":@/?# \t").replace(|c: char| c.is_control(), ""), _ => ident(r, 8) }
}
fn url_random(r: &mut Rng) -> Value {
    json!({"scheme": r.pick(&["", "http://", "http://", "https://"]), "cred": r.pick(&["none", "none", "pair", "nopass", "http", "nouser", "word", "two"]),
           "host": r.pick(&["own", "own", "own", "localhost"]), "port": r.pick(&["own", "own", "own", "default", "zeros"]),
           "path": r.below(7), "query": r.below(7), "frag": r.below(4), "long": if r.chance(1, 30) { r.range(1, 4) } else { 0 },
           "bad": if r.chance(1, 3) { *r.pick(&["colon", "nohost", "badport", "emptyport", "twoports", "at", "scheme", "slash", "space", "control", "plus", "fuzz", "lead"]) } else { "none" }})
}

/// The text of a URL for a listener on ip:port.
fn url_text(d: &Value, ip: &str, port: u16, r: &mut Rng) -> String {
    let s = |k: &str| d[k].as_str().unwrap_or("").to_string();
    let n = |k: &str| d[k].as_u64().unwrap_or(0);
    let bad = s("bad");
    let mut out = s("scheme");
    let pass = match r.below(4) { 0 => String::new(), 1 => text(r, 10, ":@/?# \t"), _ => ident(r, 8) };
    let name = user(r);
    let name = if name.is_empty() { "u".into() } else { name };
    let size = |r: &mut Rng| *r.pick(&[70usize, 256, 300, 1025, 2049, 4097, 9000]);
    let pass = if n("long") == 4 { "p".repeat(size(r).min(1025)) } else { pass };
    match s("cred").as_str() {
        "pair" => out += &format!("{}:{}@", name, pass),
        "nopass" => out += &format!("{}:@", name),
        "http" => out += &format!("{}:{}@", r.pick(&["http", "https", "httpx", "htt", "ftp"]), pass),
        "nouser" => out += &format!(":{}@", pass),
        "word" => out += &format!("{}@", name),
        "two" => out += &format!("{}:{}:{}@", name, ident(r, 3), pass),
        _ => (),
    }
    if bad == "lead" { out.push(':') }
    out += if bad == "nohost" { "" } else if s("host") == "localhost" && ip == "127.0.0.1" { "localhost" } else { ip };
    match s("port").as_str() {
        "own" => out += &format!(":{}", port),
        "zeros" => out += &format!(":{:06}", port),
        _ => (),
    }
    match bad.as_str() {
        "colon" => out.push(':'),
        "badport" => out += r.pick::<&str>(&["x", "-", ".", "e1", "0000000", "9999", "\u{662}"]),
        "twoports" => out += &format!(":{}", port),
        "emptyport" => out = out.replace(&format!(":{}", port), ":"),
        "at" => out += &format!("@{}:{}", ip, port),
        "plus" => out = out.replace(&format!(":{}", port), &format!(":+{}", port)),
        _ => (),
    }
    let seg = |r: &mut Rng| text(r, 8, "?# \t");
    out += &match n("path") {
        0 => String::new(), 1 => "/".into(), 2 => format!("/{}", ident(r, 5)), 3 => format!("/{}/{}", seg(r), seg(r)), 4 => "//a//b/".into(),
        5 => "/a:1@b/:c/http://x".into(), _ => "/%20%2F+..;x=1&y".into(),
    };
    match n("long") {
        1 => out += &format!("/{}", "l".repeat(size(r))),
        2 => out += &"/s".repeat(size(r) / 4),
        _ => (),
    }
    out += &match n("query") {
        0 => String::new(), 1 => "?".into(), 2 => "?a=1".into(), 3 => "?b=2&a=1&a=1&&c".into(), 4 => "?x=a=b?c/d:e@f".into(), 5 => format!("?{}", text(r, 20, "# \t")), _ => "?k=&=v&=".into(),
    };
    if n("long") == 3 {
        out += &format!("{}{}", if out.contains('?') { "&" } else { "?" }, (0..size(r) / 10).map(|i| format!("k{}=v{}", i, i)).collect::<Vec<_>>().join("&"));
    }
    out += &match n("frag") { 0 => String::new(), 1 => "#".into(), 2 => "#f?x=1".into(), _ => format!("#{}", text(r, 8, " \t")) };
    let any = |r: &mut Rng, out: &str| { let cs: Vec<usize> = out.char_indices().map(|(i, _)| i).chain(Some(out.len())).collect(); *r.pick(&cs) };
    match bad.as_str() {
        "scheme" => out = format!("{}{}", r.pick(&["ftp://", "http;//", "https;//", "htto://", "hxtp://", "http:/", "http:", "HTTP//", "://", "http:///", "https:/", "/", "?", "#"]), out.replace("http://", "").replace("https://", "")),
        "slash" => out = out.replacen("://", r.pick::<&str>(&[":/", "//", ":", ":///"]), 1),
        "space" => { let i = any(r, &out); out.insert(i, ' ') }
        "control" => { let i = any(r, &out); out.insert_str(i, r.pick::<&str>(&["\r", "\n", "\r\n", "\n\n", "\0", "\t", "\u{7f}", "\u{7f}", "\u{7f}", "\x0b", "\x1f", " HTTP/1.1\r\nX: y\r\n"])) }
        "fuzz" => for _ in 0..r.range(1, 3) {
            let i = any(r, &out);
            if r.chance(1, 3) && i < out.len() { out.remove(i); } else { out.insert(i, *r.pick(&[':', '@', '/', '?', '#', 'h', '0', '9', '.', 'é', '%', '='])) }
        },
        _ => (),
    }
    out
}

pub fn urls(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x17);
    let mut ds: Vec<Value> = cfg.behaviours().into_iter().flat_map(|b| b.as_array().cloned().unwrap_or_default()).collect();
    for _ in 0..cfg.scale(500, 6000) {
        ds.push(url_random(&mut r));
    }
    // listeners: an own port per worker, and the default ports where the system lets us have them
    let n = 8;
    let ips: Vec<String> = (0..n).map(|k| if k == 0 { "127.0.0.1".into() } else { format!("127.0.{}.{}", std::process::id() % 250, k + 10) }).collect();
    let mut work: Vec<Vec<(Value, Rng)>> = vec![vec![]; n];
    for (i, d) in ds.into_iter().enumerate() {
        let k = if d["host"] == "localhost" { 0 } else { i % n };
        work[k].push((d, r.fork()));
    }
    let out = par(work, n, |k, cases| {
        let ip = &ips[k];
        let mut out = vec![];
        let own = bound(ip, 0).unwrap_or_else(|| tool_error("no port"));
        let plain = TcpListener::bind((ip.as_str(), 80)).ok();
        let tls = TcpListener::bind((ip.as_str(), 443)).ok();
        for (d, r) in cases {
            let mut r = r.clone();
            let l = match (d["port"].as_str(), d["scheme"].as_str()) {
                (Some("default"), Some("https://")) => &tls,
                (Some("default"), _) => &plain,
                _ => &None,
            }.as_ref().unwrap_or(&own);
            let port = l.local_addr().unwrap().port();
            let text = url_text(d, ip, port, &mut r);
            let mut d2 = d.clone();
            if port == own.local_addr().unwrap().port() && d["port"] == "default" { d2["port"] = json!("own") }
            let text = if d2 != *d { url_text(&d2, ip, port, &mut r) } else { text };
            let rest: Vec<&TcpListener> = [Some(&own), plain.as_ref(), tls.as_ref()].into_iter().flatten().filter(|o| o.as_raw_fd() != l.as_raw_fd()).collect();
            let p = exchange(l, &rest, &text, &[(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi".to_vec(), 0)], false);
            let body = p.resp.map(|mut x| x.body()).unwrap_or_default();
            out.push(json!({"e": "case", "p": "C17"}));
            out.push(json!({"e": "url", "text": sbytes(&text), "ip": sbytes(ip), "port": port, "conns": p.conns, "others": p.elsewhere, "req": bytes(&p.req), "r": p.r, "body": bytes(&body)}));
        }
        out
    });
    // requests that name no address
    let mut out = out.concat();
    for k in 0..6 {
        let mut q = starry::Request::default();
        let (q2, h) = (starry::Request::default(), ["", "127.0.0.1", "localhost"][k % 3]);
        q.set_url(q2.url());
        q.set_host(h.to_string());
        if k > 2 { q.form_set("a".into(), "b".into()) }
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if k % 2 == 0 { HttpClient::new(q).send() } else { HttpClient::create(true, q).send() }));
            let _ = tx.send(match x { Ok(Ok(_)) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" });
        });
        let x = rx.recv_timeout(patience()).unwrap_or_else(|_| { missing(); "hang" });
        out.push(json!({"e": "case", "p": "C17"}));
        out.push(json!({"e": "blank", "r": x}));
    }
    cfg.write_trace(&out);
}

// ---------------------------------------------------------------- C18
const CODES: [(u16, &str); 60] = [
    (100, "Continue"), (101, "Switching Protocols"), (102, "Processing"), (200, "OK"), (201, "Created"), (202, "Accepted"),
    (203, "Non Authoritative Information"), (204, "No Content"), (205, "Reset Content"), (206, "Partial Content"), (207, "Multi-Status"), (208, "Already Reported"),
    (226, "IM Used"), (300, "Multiple Choices"), (301, "Moved Permanently"), (302, "Found"), (303, "See Other"), (304, "Not Modified"),
    (305, "Use Proxy"), (307, "Temporary Redirect"), (308, "Permanent Redirect"), (400, "Bad Request"), (401, "Unauthorized"), (402, "Payment Required"),
    (403, "Forbidden"), (404, "Not Found"), (405, "Method Not Allowed"), (406, "Not Acceptable"), (407, "Proxy Authentication Required"), (408, "Request Timeout"),
    (409, "Conflict"), (410, "Gone"), (411, "Length Required"), (412, "Precondition Failed"), (413, "Payload Too Large"), (414, "URI Too Long"),
    (415, "Unsupported Media Type"), (416, "Range Not Satisfiable"), (417, "Expectation Failed"), (418, "I'm a teapot"), (421, "Misdirected Request"), (422, "Unprocessable Entity"),
    (423, "Locked"), (424, "Failed Dependency"), (426, "Upgrade Required"), (428, "Precondition Required"), (429, "Too Many Requests"), (431, "Request Header Fields Too Large"),
    (451, "Unavailable For Legal Reasons"), (500, "Internal Server Error"), (501, "Not Implemented"), (502, "Bad Gateway"), (503, "Service Unavailable"), (504, "Gateway Timeout"),
    (505, "HTTP Version Not Supported"), (506, "Variant Also Negotiates"), (507, "Insufficient Storage"), (508, "Loop Detected"), (510, "Not Extended"), (511, "Network Authentication Required"),
];

fn answer_random(r: &mut Rng) -> Value {
    let faulty = r.chance(1, 3);
    json!({"ver": if faulty && r.chance(1, 5) { r.below(6) } else { r.below(2) }, "code": r.below(80), "line": if faulty && r.chance(1, 3) { r.range(1, 9) } else { 0 },
           "hs": (0..r.below(8)).map(|_| r.below(14)).collect::<Vec<_>>(), "cl": if faulty && r.chance(1, 3) { r.range(4, 16) } else { r.below(4) },
           "body": r.below(8), "cut": if faulty && r.chance(1, 2) { r.range(1, 5) } else { 0 }, "reset": faulty && r.chance(1, 4), "seg": r.below(6), "eol": if r.chance(1, 20) { 1 } else { 0 },
           "fuzz": r.chance(1, 8), "many": if r.chance(1, 25) { *r.pick(&[40, 70, 101, 130, 260, 300]) } else { 0 }, "wide": r.chance(1, 60)})
}

fn answer_bytes(d: &Value, r: &mut Rng, phrases: &[(u16, String)]) -> Vec<u8> {
    let n = |k: &str| d[k].as_u64().unwrap_or(0) as usize;
    let eol = if n("eol") == 1 { "\n" } else { "\r\n" };
    let ver = ["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "http/1.1", "", "HTTP/1.11"][n("ver") % 6];
    let (code, phrase) = phrases[n("code") % phrases.len()].clone();
    let line = match n("line") {
        0 => format!("{} {} {}", ver, code, phrase),
        1 => format!("{} {} {}x", ver, code, phrase),
        2 => format!("{} {} {}", ver, code, phrase.to_lowercase()),
        3 => format!("{} {}", ver, code),
        4 => format!("{} {} ", ver, code),
        5 => format!("{} {} {}", ver, r.pick(&["600", "99", "0", "299", "999", "2000", "65736", "-200", "abc", "", "1e2", "+200", "0200", "20O"]), phrase),
        6 => format!("{}  {} {}", ver, code, phrase),
        7 => format!("{} {} {} ", ver, code, phrase),
        8 => String::new(),
        _ => format!("{} {}", code, phrase),
    };
    let mut body = match n("body") {
        0 => vec![], 1 => b"hello".to_vec(), 2 => text(r, 60, "").into_bytes(), 3 => { let k = r.below(300); r.bytes(k) }
        4 => b"\r\n\r\nHTTP/1.1 200 OK\r\n\r\n".to_vec(), 5 => b"\n\n\r\n".to_vec(), 6 => { let k = r.range(700, 1500); r.bytes(k) } _ => b"x".to_vec(),
    };
    if n("body") == 6 && r.chance(1, 25) {
        body = r.bytes(9000);
    }
    let len = body.len();
    let cl: Vec<(&str, String)> = match n("cl") {
        0 => vec![], 1 | 2 => vec![("Content-Length", len.to_string())],
        3 => { body.extend_from_slice(*r.pick(&[&b"extra\r\n\r\n"[..], b"\r\n", b"\n", b"\0", b"xy", b"xyz", b"12345678"])); vec![("content-length", len.to_string())] }
        4 => vec![("Content-Length", (len + r.range(1, 5)).to_string())], 5 => vec![("Content-Length", r.range(0, len).to_string())],
        6 => vec![("Content-Length", "-1".into())], 7 => vec![("Content-Length", r.pick(&["-2", "-10", "-9223372036854775809"]).to_string())],
        8 => vec![("Content-Length", r.pick(&["x", "1x", "0x10", "1.0", "1 1", "", "1,1", "-", "--1"]).to_string())],
        9 => vec![("Content-Length", r.pick(&["18446744073709551616", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "18446744073709551615"]).to_string())],
        10 => vec![("CONTENT-LENGTH", len.to_string())], 11 => vec![("Content-Length", format!("\t  {} ", len))],
        12 => vec![("Content-Length", len.to_string()), ("Content-Length", len.to_string())], 13 => vec![("Content-Length", len.to_string()), ("Content-Length", (len + 1).to_string())],
        14 => vec![("Content-Length", format!("+{}", len))], 15 => vec![("Content-Length", format!("{:012}", len))], _ => vec![("Content-Length", "0".into())],
    };
    let mut hs: Vec<String> = d["hs"].as_array().cloned().unwrap_or_default().iter().map(|h| match h.as_u64().unwrap_or(0) {
        0 => format!("X-A: {}", text(r, 30, "\t").trim()), 1 => "x-a:low".into(), 2 => "X-B:".into(), 3 => format!("X-B: a:b: {}", ident(r, 4)), 4 => format!("X-{}:  {}\t", ident(r, 6), ident(r, 3)),
        5 => format!("Set-Cookie: {}={}; Path=/; HttpOnly", ident(r, 4), ident(r, 4)), 6 => format!("Set-Cookie: {}={}; Max-Age={}", ident(r, 4), ident(r, 4), r.pick(&["10", "-1", "x"])),
        7 => "Content-Type: text/html; charset=utf-8".into(), 8 => "Connection: close".into(), 9 => "Connection: keep-alive".into(), 10 => format!("X-A: {}", ident(r, 9)),
        11 => format!("X-Long: {}", "v".repeat(r.range(900, 1100))), 12 => "no colon here".into(), _ => "Date: Sun, 06 Nov 1994 08:49:37 GMT".into(),
    }).collect();
    let kinds = *r.pick(&[1usize, 9, 1000, 1000]);
    let cookies = r.chance(1, 3);
    hs.extend((0..n("many")).map(|i| if cookies { format!("Set-Cookie: c{}=v{}; Path=/{}", i % kinds, i, i) } else { format!("X-N{}: v{}", i % kinds, i) }));
    if d["wide"] == true {
        let k = r.range(5000, 40000);
        hs.push(format!("X-Wide: {}", "w".repeat(k)));
        hs.push(format!("X-{}: w", "n".repeat(k / 50)));
    }
    for (k, v) in cl {
        let i = r.below(hs.len() + 1);
        hs.insert(i, format!("{}: {}", k, v));
    }
    let mut out = (line + eol).into_bytes();
    for h in hs {
        out.extend_from_slice(h.as_bytes());
        out.extend_from_slice(eol.as_bytes());
    }
    out.extend_from_slice(eol.as_bytes());
    let head = out.len();
    out.extend_from_slice(&body);
    match n("cut") {
        1 => out.truncate(r.below(head)), 2 => out.truncate(head - 1), 3 => out.truncate(r.range(head.min(out.len()), out.len())), 4 => { out.pop(); } 5 => out.clear(), _ => (),
    }
    if d["fuzz"] == true && !out.is_empty() {
        for _ in 0..r.range(1, 3) {
            let i = r.below(out.len());
            match r.below(3) { 0 => { out.remove(i); } 1 => out.insert(i, *r.pick(&[b' ', b'\r', b'\n', b':', b'0', b'-', 0xff, 0])), _ => out[i] = *r.pick(&[b' ', b'\r', b'\n', b':', b'9', b'x', 0x80]) }
            if out.is_empty() { break }
        }
    }
    out
}

pub fn answers(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x18);
    let mut ds: Vec<Value> = cfg.behaviours().into_iter().flat_map(|b| b.as_array().cloned().unwrap_or_default()).collect();
    for _ in 0..cfg.scale(500, 6000) {
        ds.push(answer_random(&mut r));
    }
    let phrases: Vec<(u16, String)> = CODES.iter().map(|(c, p)| (*c, p.to_string())).collect();
    let items: Vec<(Value, Rng)> = ds.into_iter().map(|d| (d, r.fork())).collect();
    let out = par(items, 8, |_, (d, r)| {
        let mut r = r.clone();
        let all = answer_bytes(d, &mut r, &phrases);
        let reset = d["reset"] == true;
        let sizes: Vec<usize> = match d["seg"].as_u64().unwrap_or(0) {
            0 => vec![all.len().max(1)], 1 => vec![1; all.len().min(300)], 2 => vec![head_len(&all).max(1)], 3 => vec![head_len(&all).saturating_sub(r.range(1, 3)).max(1)],
            4 => (0..6).map(|_| r.range(1, 50)).collect(), _ => (0..3).map(|_| r.range(1, all.len().max(1))).collect(),
        };
        let mut pieces = vec![];
        let mut at = 0;
        for s in sizes {
            let to = (at + s).min(all.len());
            if at < to { pieces.push((all[at..to].to_vec(), if all.len() > 400 { 100 } else { 40 })) }
            at = to;
        }
        if at < all.len() { pieces.push((all[at..].to_vec(), 0)) }
        let l = bound("127.0.0.1", 0).unwrap_or_else(|| tool_error("no port"));
        let url = format!("http://127.0.0.1:{}/", l.local_addr().unwrap().port());
        let p = exchange(&l, &[], &url, &pieces, reset);
        let (show, cookies, body) = match p.resp {
            None => (json!({"ver": [], "code": [], "hs": []}), json!({"ok": false, "panic": false, "texts": []}), vec![]),
            Some(mut x) => {
                let s = shown(&x);
                let c = crate::cookies::reading(&x).0;
                (s, c, x.body())
            }
        };
        vec![json!({"e": "case", "p": "C18"}),
             json!({"e": "answer", "sent": bytes(&all), "reset": reset, "r": p.r, "conns": p.conns, "show": show, "cookies": cookies, "body": bytes(&body)})]
    });
    let mut out = out.concat();
    // long bodies
    let lens = [5_000usize, 65_535, 65_536, 65_537, 200_000, 1_048_576, 1_048_577, 2_500_000, 7_000_000];
    let items: Vec<Rng> = (0..cfg.scale(28, 200)).map(|_| r.fork()).collect();
    out.extend(par(items, 8, |i, r| {
        let mut r = r.clone();
        let n = if i < lens.len() { lens[i] } else { *r.pick(&lens) - r.below(3) };
        let seed = r.bytes(251);
        let bulk: Vec<u8> = seed.iter().cycle().enumerate().take(n).map(|(k, b)| b ^ (k >> 12) as u8).collect();
        let cl = match if i < lens.len() { 0 } else { r.below(7) } { 0 | 1 => None, 2 | 3 => Some(n), 4 => Some(n - r.range(1, n / 2)), 5 => Some(n + 1), _ => Some(n + r.range(2, 100_000)) };
        let head = format!("HTTP/1.1 200 OK\r\n{}X-A: b\r\n\r\n", cl.map(|n| format!("Content-Length: {}\r\n", n)).unwrap_or_default()).into_bytes();
        let reset = i >= lens.len() && r.chance(1, 6);
        let mut pieces = vec![(head.clone(), 100)];
        let mut at = 0;
        for _ in 0..r.below(5) { let to = (at + r.range(1, n)).min(n); if to > at { pieces.push((bulk[at..to].to_vec(), r.below(3000) as u64)) } at = to }
        if at < n { pieces.push((bulk[at..].to_vec(), 0)) }
        let l = bound("127.0.0.1", 0).unwrap_or_else(|| tool_error("no port"));
        let url = format!("http://127.0.0.1:{}/", l.local_addr().unwrap().port());
        let p = exchange(&l, &[], &url, &pieces, reset);
        let body = p.resp.map(|mut x| x.body()).unwrap_or_default();
        vec![json!({"e": "case", "p": "C18"}),
             json!({"e": "bulk", "sent": bytes(&head), "bulk": n, "reset": reset, "r": p.r, "conns": p.conns, "got": body.len(), "same": bulk.starts_with(&body)})]
    }).concat());
    cfg.write_trace(&out);
}
fn head_len(b: &[u8]) -> usize {
    crate::http::head_end(b).unwrap_or(b.len())
}
