//! Shared pieces: random numbers, trace output, raw HTTP over TCP, server start-up, handler table.
use serde_json::{json, Value};
use starry::{Context, HttpServer};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

// ---------------------------------------------------------------- configuration of one run
pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    /// directory to write in (trace.ndjson, logs)
    pub out: String,
    /// file with behaviours generated by TLC (one JSON value per line), may be absent
    pub beh: Option<String>,
}

impl Cfg {
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn behaviours(&self) -> Vec<Value> {
        match &self.beh {
            None => vec![],
            Some(p) => std::fs::read_to_string(p).expect("behaviours")
                .lines().filter(|l| !l.trim().is_empty())
                .map(|l| serde_json::from_str(l).expect("behaviour json")).collect(),
        }
    }
    pub fn write_trace(&self, lines: &[Value]) {
        let mut s = String::new();
        for l in lines {
            s.push_str(&l.to_string());
            s.push('\n');
        }
        std::fs::write(format!("{}/trace.ndjson", self.out), s).expect("write trace");
    }
}

pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| json!(*x)).collect())
}
pub fn sbytes(s: &str) -> Value {
    bytes(s.as_bytes())
}

/// Runs `f` for every item on `n` threads and returns the results in the order of the items.
pub fn par<T: Send + Sync, R: Send>(items: Vec<T>, n: usize, f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Mutex<Vec<Option<R>>> = Mutex::new((0..items.len()).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..n.max(1) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= items.len() {
                    return;
                }
                let r = f(i, &items[i]);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.expect("case")).collect()
}

// ---------------------------------------------------------------- handler table
pub type Closure = Arc<dyn Fn(&mut Context) + Send + Sync>;
static HANDLERS: OnceLock<Mutex<HashMap<usize, Closure>>> = OnceLock::new();

fn handlers() -> &'static Mutex<HashMap<usize, Closure>> {
    HANDLERS.get_or_init(|| Mutex::new(HashMap::new()))
}
/// Binds a closure to slot `n` of the handler table; the slot's function pointer is `H[n]`.
pub fn bind(n: usize, f: impl Fn(&mut Context) + Send + Sync + 'static) {
    lock(handlers()).insert(n, Arc::new(f));
}
fn h<const N: usize>(ctx: &mut Context) {
    let f = lock(handlers()).get(&N).cloned();
    if let Some(f) = f {
        f(ctx)
    }
}
pub fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
macro_rules! table {
    ($($n:literal)*) => { [$( h::<$n> as fn(&mut Context), )*] };
}
#[rustfmt::skip]
pub static H: [fn(&mut Context); 128] = table!(
 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63
 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95
 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127);

// ---------------------------------------------------------------- server
pub struct Srv {
    pub server: HttpServer,
    pub port: u16,
}
static LOGDIR: OnceLock<String> = OnceLock::new();
pub fn set_logdir(d: &str) {
    let _ = LOGDIR.set(d.to_string());
}
pub fn logdir() -> String {
    LOGDIR.get().cloned().unwrap_or_else(|| ".".into())
}

/// Starts a server on a free loopback port. The listener thread lives until the process ends.
pub fn start(pool: usize, keepalive: Option<i64>, compress: bool) -> Srv {
    let mut server = HttpServer::new();
    server.set_pool_size(pool);
    if let Some(k) = keepalive {
        server.set_keepalive(k)
    }
    if compress {
        server.set_compress()
    }
    server.set_log(log::LevelFilter::Off, logdir(), 1, 1);
    for _ in 0..20 {
        let port = {
            let l = TcpListener::bind("127.0.0.1:0").expect("bind");
            l.local_addr().unwrap().port()
        };
        let s = server.clone();
        let t = std::thread::Builder::new().name("listener".into())
            .spawn(move || { let _ = s.listener(("127.0.0.1", port)); }).expect("thread");
        let until = Instant::now() + Duration::from_secs(10);
        while Instant::now() < until && !t.is_finished() {
            if listening(port) {
                return Srv { server, port };
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    tool_error("server does not start");
}

/// Whether some socket listens on 127.0.0.1:port (looked up, so that no connection is spent on it).
fn listening(port: u16) -> bool {
    let want = format!("0100007F:{:04X} 00000000:0000 0A", port);
    std::fs::read_to_string("/proc/net/tcp").map(|s| s.contains(&want)).unwrap_or(false)
}

pub fn tool_error(msg: &str) -> ! {
    eprintln!("TOOL-ERROR {}", msg);
    std::process::exit(3)
}

// ---------------------------------------------------------------- raw HTTP
#[derive(Clone, Debug, Default)]
pub struct Resp {
    /// "ok", "eof" (closed before a complete response), "timeout", "reset", "garbage"
    pub end: String,
    pub status: i64,
    pub version: Vec<u8>,
    pub reason: Vec<u8>,
    pub headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub body: Vec<u8>,
}

impl Resp {
    pub fn json(&self) -> Value {
        json!({"end": self.end, "status": self.status, "version": bytes(&self.version), "reason": bytes(&self.reason),
               "headers": self.headers.iter().map(|(k, v)| json!({"n": bytes(k), "v": bytes(v)})).collect::<Vec<_>>(),
               "body": bytes(&self.body)})
    }
    pub fn header(&self, name: &str) -> Option<Vec<u8>> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name.as_bytes())).map(|(_, v)| v.clone())
    }
}

pub struct Conn {
    pub s: TcpStream,
    buf: Vec<u8>,
    pub eof: bool,
    pub reset: bool,
    pub timeout: Duration,
}

impl Conn {
    pub fn open(port: u16) -> Conn {
        for i in 0..50 {
            match TcpStream::connect(("127.0.0.1", port)) {
                Ok(s) => {
                    s.set_nodelay(true).ok();
                    return Conn { s, buf: vec![], eof: false, reset: false, timeout: patience() };
                }
                Err(e) => {
                    if i == 49 {
                        tool_error(&format!("connect: {}", e));
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
        }
        unreachable!()
    }
    /// A connection, unless it is refused.
    pub fn try_open(port: u16) -> Option<Conn> {
        for _ in 0..10 {
            if let Ok(s) = TcpStream::connect(("127.0.0.1", port)) {
                s.set_nodelay(true).ok();
                return Some(Conn { s, buf: vec![], eof: false, reset: false, timeout: patience() });
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        None
    }
    pub fn send(&mut self, b: &[u8]) -> bool {
        self.s.set_write_timeout(Some(self.timeout)).ok();
        self.s.write_all(b).is_ok()
    }
    pub fn fin(&self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
    /// Reads more bytes; false on end of stream, error or deadline.
    pub fn fill(&mut self, until: Instant) -> bool {
        if self.eof || self.reset {
            return false;
        }
        let now = Instant::now();
        if now >= until {
            return false;
        }
        let one: libc::c_int = 1;
        unsafe {
            use std::os::fd::AsRawFd;
            libc::setsockopt(self.s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK,
                             &one as *const _ as *const libc::c_void, 4);
        }
        self.s.set_read_timeout(Some((until - now).max(Duration::from_millis(1)))).ok();
        let mut b = [0u8; 65536];
        match self.s.read(&mut b) {
            Ok(0) => { self.eof = true; false }
            Ok(n) => { self.buf.extend_from_slice(&b[..n]); true }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => Instant::now() < until,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => true,
            Err(_) => { self.reset = true; false }
        }
    }
    fn why(&self) -> String {
        if !self.reset && !self.eof {
            missing()
        }
        if self.reset { "reset" } else if self.eof { "eof" } else { "timeout" }.to_string()
    }
    pub fn peek(&self, what: &[u8]) -> Option<usize> {
        find(&self.buf, what)
    }
    pub fn pending(&self) -> usize {
        self.buf.len()
    }
    /// Reads one response: head, then Content-Length bytes, or everything up to the end of the stream when
    /// there is no Content-Length (`until_eof`) resp. nothing (`!until_eof`).
    pub fn read(&mut self, until_eof: bool) -> Resp {
        let until = Instant::now() + self.timeout;
        self.read_until(until, until_eof)
    }
    pub fn read_until(&mut self, until: Instant, until_eof: bool) -> Resp {
        let mut r = Resp { status: -1, ..Default::default() };
        let head = loop {
            if let Some(i) = find(&self.buf, b"\r\n\r\n") {
                break i + 4;
            }
            if !self.fill(until) {
                r.end = self.why();
                r.body = std::mem::take(&mut self.buf);
                return r;
            }
        };
        let h: Vec<u8> = self.buf.drain(..head).collect();
        let mut lines = split_crlf(&h[..head - 4]);
        let first = if lines.is_empty() { vec![] } else { lines.remove(0) };
        let mut it = first.splitn(3, |b| *b == b' ');
        r.version = it.next().unwrap_or(b"").to_vec();
        r.status = it.next().and_then(|s| std::str::from_utf8(s).ok()).and_then(|s| s.parse::<u16>().ok()).map(|x| x as i64).unwrap_or(-1);
        r.reason = it.next().unwrap_or(b"").to_vec();
        if r.status < 0 || !r.version.starts_with(b"HTTP/") {
            r.end = "garbage".into();
            r.body = h;
            return r;
        }
        let mut cl = None;
        for l in lines {
            let (n, v) = match l.iter().position(|b| *b == b':') {
                Some(i) => (l[..i].to_vec(), l[i + 1..].trim_ascii().to_vec()),
                None => (l.clone(), vec![]),
            };
            if n.eq_ignore_ascii_case(b"content-length") {
                cl = std::str::from_utf8(&v).ok().and_then(|s| s.parse::<usize>().ok());
            }
            r.headers.push((n, v));
        }
        match cl {
            Some(n) => {
                while self.buf.len() < n {
                    if !self.fill(until) {
                        r.end = self.why();
                        r.body = std::mem::take(&mut self.buf);
                        return r;
                    }
                }
                r.body = self.buf.drain(..n).collect();
            }
            None if until_eof => {
                while self.fill(until) {}
                r.body = std::mem::take(&mut self.buf);
                if !self.eof {
                    r.end = self.why();
                    return r;
                }
            }
            None => {}
        }
        r.end = "ok".into();
        r
    }
    /// Waits for the end of the stream; "eof", "reset", "timeout" or "data" (unexpected bytes).
    pub fn wait_end(&mut self, d: Duration) -> String {
        let until = Instant::now() + d;
        while self.buf.is_empty() && self.fill(until) {}
        if !self.buf.is_empty() {
            "data".into()
        } else if self.reset {
            "reset".into()
        } else if self.eof {
            "eof".into()
        } else {
            "timeout".into()
        }
    }
    pub fn take(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.buf)
    }
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() || h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len()).find(|i| &h[*i..*i + n.len()] == n)
}
pub fn split_crlf(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut rest = b;
    loop {
        match find(rest, b"\r\n") {
            Some(i) => {
                out.push(rest[..i].to_vec());
                rest = &rest[i + 2..];
            }
            None => {
                out.push(rest.to_vec());
                return out;
            }
        }
    }
}

/// One request on its own connection; the whole answer is read up to the end of the stream.
pub fn once(port: u16, req: &[u8]) -> Resp {
    let mut c = Conn::open(port);
    c.send(req);
    c.read(true)
}

pub fn method(name: &str) -> starry::Method {
    use starry::Method as M;
    match name {
        "OPTIONS" => M::OPTIONS, "GET" => M::GET, "POST" => M::POST, "PUT" => M::PUT, "DELETE" => M::DELETE,
        "HEAD" => M::HEAD, "TRACE" => M::TRACE, "CONNECT" => M::CONNECT, "PATCH" => M::PATCH, "LINK" => M::LINK,
        "UNLINK" => M::UNLINK, _ => M::PRI,
    }
}

/// Registers `pattern` for `method` on the group `group` of the server; `ext` are the route's own extensions.
pub fn route(server: &HttpServer, group: &str, gext: Option<starry::Extend>, m: &str, pattern: &str,
             handler: fn(&mut Context), ext: Option<starry::Extend>) {
    let r = match gext {
        Some(e) => server.router_wf(group, e),
        None => server.router(group),
    };
    match ext {
        None => match m {
            "OPTIONS" => r.option(pattern, handler), "GET" => r.get(pattern, handler), "POST" => r.post(pattern, handler),
            "PUT" => r.put(pattern, handler), "DELETE" => r.delete(pattern, handler), "HEAD" => r.head(pattern, handler),
            "TRACE" => r.trace(pattern, handler), "CONNECT" => r.connect(pattern, handler), "PATCH" => r.patch(pattern, handler),
            "LINK" => r.link(pattern, handler), "UNLINK" => r.unlink(pattern, handler), _ => r.pri(pattern, handler),
        },
        Some(e) => match m {
            "OPTIONS" => r.option_wf(pattern, handler, e), "GET" => r.get_wf(pattern, handler, e), "POST" => r.post_wf(pattern, handler, e),
            "PUT" => r.put_wf(pattern, handler, e), "DELETE" => r.delete_wf(pattern, handler, e), "HEAD" => r.head_wf(pattern, handler, e),
            "TRACE" => r.trace_wf(pattern, handler, e), "CONNECT" => r.connect_wf(pattern, handler, e), "PATCH" => r.patch_wf(pattern, handler, e),
            "LINK" => r.link_wf(pattern, handler, e), "UNLINK" => r.unlink_wf(pattern, handler, e), _ => r.pri_wf(pattern, handler, e),
        },
    }
}

// ---------------------------------------------------------------- observations by case id
type Sink = Arc<Mutex<Vec<Value>>>;
fn sinks() -> &'static Mutex<HashMap<u64, Sink>> {
    static S: OnceLock<Mutex<HashMap<u64, Sink>>> = OnceLock::new();
    S.get_or_init(|| Mutex::new(HashMap::new()))
}
/// Opens a place for the observations of a case and returns its number.
pub fn sink() -> (u64, Sink) {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    let id = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let s: Sink = Arc::new(Mutex::new(vec![]));
    lock(sinks()).insert(id, s.clone());
    (id, s)
}
pub fn unsink(id: u64) {
    lock(sinks()).remove(&id);
}
pub fn report(id: u64, v: Value) {
    let s = lock(sinks()).get(&id).cloned();
    if let Some(s) = s {
        lock(&s).push(v)
    }
}
/// The case a request belongs to, from its X-Case header.
pub fn case_of(ctx: &Context) -> u64 {
    ctx.req_header_get("X-Case").and_then(|s| s.parse().ok()).unwrap_or(0)
}

/// How long to wait for an answer: long, until too many answers were missing.
pub fn patience() -> Duration {
    match MISSING.load(std::sync::atomic::Ordering::SeqCst) {
        0..=2 => Duration::from_secs(20),
        3..=12 => Duration::from_secs(3),
        _ => Duration::from_millis(400),
    }
}
static MISSING: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn missing() {
    MISSING.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}
