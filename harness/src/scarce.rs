//! C27: a server in a process of its own that runs short of descriptors and threads.
use crate::util::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

const GIB: u64 = 1 << 30;

fn limit(what: libc::__rlimit_resource_t, n: Option<u64>) {
    let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(what, &mut old) };
    let new = libc::rlimit { rlim_cur: n.unwrap_or(old.rlim_max).min(old.rlim_max), rlim_max: old.rlim_max };
    unsafe { libc::setrlimit(what, &new) };
}

fn held() -> Vec<u64> {
    // the listing's own descriptor is gone by the time it is read
    let l: Vec<u64> = std::fs::read_dir("/proc/self/fd").map(|d| d.flatten().filter_map(|e| e.file_name().to_str()?.parse().ok()).collect()).unwrap_or_default();
    l.into_iter().filter(|n| unsafe { libc::fcntl(*n as libc::c_int, libc::F_GETFD) } != -1).collect()
}
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// The size of the process's address space.
fn size(status: &std::fs::File) -> u64 {
    use std::os::unix::fs::FileExt;
    let mut b = vec![0u8; 8192];
    let k = status.read_at(&mut b, 0).unwrap_or(0);
    std::str::from_utf8(&b[..k]).ok()
        .and_then(|t| t.lines().find_map(|l| l.strip_prefix("VmSize:").and_then(|v| v.split_whitespace().next()?.parse::<u64>().ok())))
        .unwrap_or_else(|| tool_error("no VmSize")) * 1024
}

/// The server's side: obeys lines on its input until that ends.
pub fn child() {
    let pool = std::env::var("VH_POOL").ok().and_then(|s| s.parse().ok()).unwrap_or(2);
    bind(1, |ctx| { let id = ctx.req_param("id").unwrap_or_default(); ctx.resp_body(id.into_bytes()); ctx.response() });
    bind(2, |_| panic!("handler"));
    let keep = std::env::var("VH_KEEP").ok().and_then(|s| s.parse().ok()).unwrap_or(600_000);
    let srv = start(pool, Some(keep), false);
    route(&srv.server, "", None, "GET", "/a", H[1], None);
    route(&srv.server, "", None, "GET", "/p", H[2], None);
    let say = |s: String| { let mut o = std::io::stdout(); let _ = writeln!(o, "@{}", s); let _ = o.flush(); };
    // once through everything, so that nothing is set up for the first time later
    let _ = once(srv.port, b"GET /a?id=0 HTTP/1.1\r\nConnection: close\r\n\r\n");
    let _ = starry::HttpClient::get(&format!("http://127.0.0.1:{}/a?id=0", srv.port));
    std::thread::sleep(Duration::from_millis(30));
    // kept open, since nothing can be opened later
    let status = std::fs::File::open("/proc/self/status").expect("status");
    let base = held();
    say(format!("{}", srv.port));
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let w: Vec<&str> = line.split(' ').collect();
        let n = w.get(1).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        match w[0] {
            "fds" => {
                let mut l = n;
                while l - (base.iter().filter(|f| **f < l).count() as u64) < n { l += 1 }
                limit(libc::RLIMIT_NOFILE, Some(l));
                say("ok".into());
            }
            "threads" => {
                // a thread that starts while this is set would have less room than it was given
                loop {
                    std::thread::sleep(Duration::from_millis(5));
                    let u = size(&status);
                    limit(libc::RLIMIT_AS, Some(u + n * 4 * GIB + 3 * GIB));
                    if size(&status) <= u + GIB { break }
                    limit(libc::RLIMIT_AS, None);
                }
                say("ok".into());
            }
            "lift" => { limit(libc::RLIMIT_NOFILE, None); limit(libc::RLIMIT_AS, None); say("ok".into()) }
            "fetch" => {
                let url = format!("http://127.0.0.1:{}/a?id={}", srv.port, n);
                say(match std::panic::catch_unwind(|| starry::HttpClient::get(&url)) {
                    Ok(Ok(mut x)) => if x.body() == n.to_string().into_bytes() { "ok" } else { "wrong" },
                    Ok(Err(_)) => "error",
                    Err(_) => "panic",
                }.into());
            }
            "count" => say(format!("{} {}", held().len(), threads())),
            _ => say("?".into()),
        }
    }
}

struct Kid {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
}
impl Kid {
    fn say(&mut self, s: &str) -> Option<String> {
        writeln!(self.to, "{}", s).ok()?;
        self.to.flush().ok()?;
        self.from.recv_timeout(patience()).ok()
    }
    fn count(&mut self) -> Option<(i64, i64)> {
        let s = self.say("count")?;
        let mut it = s.split(' ').filter_map(|x| x.parse().ok());
        Some((it.next()?, it.next()?))
    }
}
impl Drop for Kid {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn(dir: &str, pool: usize, keep: u64) -> (Kid, u16) {
    let exe = std::env::current_exe().unwrap_or_else(|e| tool_error(&format!("exe: {}", e)));
    let mut child = Command::new(exe).args(["scarce-child", "--out", dir]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if std::env::var("VH_ERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .env("RUST_MIN_STACK", (4 * GIB).to_string()).env("MALLOC_ARENA_MAX", "1").env("VH_POOL", pool.to_string()).env("VH_KEEP", keep.to_string())
        .spawn().unwrap_or_else(|e| tool_error(&format!("child: {}", e)));
    let to = child.stdin.take().expect("stdin");
    let out = child.stdout.take().expect("stdout");
    let (tx, from) = channel();
    std::thread::spawn(move || { for l in BufReader::new(out).lines().map_while(Result::ok) { if let Some(s) = l.strip_prefix("@") { if tx.send(s.to_string()).is_err() { break } } } });
    let kid = Kid { child, to, from };
    let port = kid.from.recv_timeout(Duration::from_secs(60)).ok().and_then(|s| s.trim().parse().ok()).unwrap_or_else(|| tool_error("the child's server does not start"));
    (kid, port)
}

/// A connection and what it waits for.
struct Held {
    conn: Conn,
    n: usize,
    waits: Option<(String, u64)>,
    ended: bool,
}
impl Held {
    fn open(port: u16) -> Option<Held> {
        Some(Held { conn: Conn::try_open(port)?, n: 0, waits: None, ended: false })
    }
    fn ask(&mut self, kind: &str, id: u64, wait: Duration) -> &'static str {
        if self.waits.is_none() {
            self.conn.send(format!("GET /{}?id={} HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n", if kind == "panic" { "p" } else { "a" }, id).as_bytes());
            self.waits = Some((kind.into(), id));
        }
        let id = self.waits.as_ref().map(|w| w.1).unwrap_or(0);
        let until = Instant::now() + wait;
        while find_head(&self.conn).is_none() && self.conn.fill(until) {}
        if find_head(&self.conn).is_none() {
            if self.conn.eof || self.conn.reset { self.ended = true; return if self.conn.pending() > 0 { "other" } else { "end" } }
            return "silent";
        }
        let x = self.conn.read_until(Instant::now() + Duration::from_secs(2), false);
        self.waits = None;
        if x.status == 200 && x.body == id.to_string().into_bytes() { self.n += 1; "answer" } else { "other" }
    }
    /// Whether there is anything left that was not asked for.
    fn odd(&mut self) -> bool {
        if self.waits.is_none() && !self.ended { let until = Instant::now() + Duration::from_millis(20); while self.conn.fill(until) {} }
        self.waits.is_none() && self.conn.pending() > 0
    }
}
fn find_head(c: &Conn) -> Option<usize> {
    c.peek(b"\r\n\r\n")
}

fn history(dir: &str, ops: &[Value]) -> Vec<Value> {
    let pool = ops.iter().find(|o| o["op"] == "pool").and_then(|o| o["n"].as_u64()).unwrap_or(3) as usize;
    let keep = if ops.iter().any(|o| o["op"] == "idle") { 250 } else { 600_000 };
    let (mut kid, port) = spawn(dir, pool, keep);
    let mut out = vec![json!({"e": "case", "pool": pool})];
    let Some(base) = kid.count() else { tool_error("the child does not count") };
    let mut cs: Vec<Option<Held>> = (0..pool).map(|_| None).collect();
    let (mut nf, mut nt, mut hurt, mut id) = (1000, 1000, false, 0u64);
    let mut all = ops.to_vec();
    all.extend([json!({"op": "fresh"}), json!({"op": "lift"}), json!({"op": "fresh"}), json!({"op": "fetch"}), json!({"op": "left"})]);
    for o in &all {
        id += 1;
        let n = o["n"].as_u64().unwrap_or(0);
        let (fds, few, none, little) = (nf < 1000, nt < 1000, nf == 0, nf < 8 || nt < 1);
        let c = o["c"].as_u64().unwrap_or(0) as usize % pool;
        let mut leave = |cs: &mut Vec<Option<Held>>, out: &mut Vec<Value>, c: usize| if let Some(mut h) = cs[c].take() { let odd = h.odd(); out.push(json!({"e": "leave", "c": c, "odd": odd})) };
        match o["op"].as_str().unwrap_or("") {
            w @ ("fds" | "threads" | "lift") => {
                match kid.say(&format!("{} {}", w, n)).as_deref() { Some("ok") => (), Some(_) => tool_error("no VmSize"), None => { out.push(json!({"e": "died", "op": w})); return out } }
                match w { "fds" => nf = n, "threads" => nt = n, _ => { nf = 1000; nt = 1000 } }
                out.push(json!({"e": "limit", "what": w, "n": n}));
            }
            "ask" => {
                let kind = if o["panic"] == true { "panic" } else { "plain" };
                if cs[c].as_ref().map(|h| h.ended).unwrap_or(false) { leave(&mut cs, &mut out, c) }
                if cs[c].is_none() {
                    cs[c] = Held::open(port);
                    if cs[c].is_none() { out.push(json!({"e": "refused", "c": c})); return out }
                    out.push(json!({"e": "open", "c": c}))
                }
                let others = cs.iter().enumerate().filter(|(i, h)| *i != c && h.is_some()).count();
                // the kind of a request that is already waiting stays
                let h = cs[c].as_mut().expect("open");
                let kind = h.waits.as_ref().map(|w| w.0.clone()).unwrap_or(kind.into());
                let again = h.waits.is_some();
                let wait = if fds && (others > 0 || none) || few && hurt { Duration::from_millis(150) } else { patience() };
                let res = h.ask(&kind, id, wait);
                if res == "silent" && !(fds || few) { missing() }
                if kind == "panic" { hurt = true }
                out.push(json!({"e": "ask", "c": c, "kind": kind, "again": again, "res": res}));
                if res == "end" || res == "other" { leave(&mut cs, &mut out, c) }
            }
            "leave" => leave(&mut cs, &mut out, c),
            "crowd" => {
                let v: Vec<Option<Conn>> = (0..n).map(|_| { let mut c = Conn::try_open(port)?; c.send(b"GET /a?id=1 HTTP/1.1\r\nConnection: keep-alive\r\n\r\n"); Some(c) }).collect();
                std::thread::sleep(Duration::from_millis(n % 7 * 3));
                drop(v);
                out.push(json!({"e": "crowd", "n": n}));
            }
            "fetch" => {
                // both ends are in the same process here: with too little for both it can only wait for itself
                if fds && !none { continue }
                (0..pool).for_each(|c| leave(&mut cs, &mut out, c));
                let mut res = kid.say(&format!("fetch {}", id)).unwrap_or("hang".into());
                // a server that is still giving things back may fail it
                let until = Instant::now() + patience();
                while res == "error" && !fds && !few && Instant::now() < until { std::thread::sleep(Duration::from_millis(20)); res = kid.say(&format!("fetch {}", id)).unwrap_or("hang".into()) }
                out.push(json!({"e": "fetch", "res": res}));
            }
            "fresh" => {
                (0..pool).for_each(|c| leave(&mut cs, &mut out, c));
                let conns = if fds || few { 1 } else { pool };
                // (how long is worth waiting is the only thing known here)
                let until = Instant::now() + if little { Duration::from_millis(200) } else { patience() };
                let mut tries = 0;
                let ok = loop {
                    tries += 1;
                    let mut v: Vec<Held> = (0..conns).filter_map(|_| Held::open(port)).collect();
                    let ok = v.len() == conns && (0..3).all(|_| v.iter_mut().all(|h| { id += 1; h.ask("plain", id, if little { Duration::from_millis(100) } else { Duration::from_secs(1) }) == "answer" }));
                    if ok || Instant::now() > until { break ok }
                    drop(v);
                    std::thread::sleep(Duration::from_millis(5 * tries.min(20)));
                };
                if !ok && !little { missing() }
                if !fds && !few { hurt = false }
                out.push(json!({"e": "fresh", "conns": conns, "ok": ok}));
            }
            "idle" => for c in 0..pool {
                if let Some(h) = cs[c].as_mut() {
                    if !h.ended && h.waits.is_none() {
                        let end = h.conn.wait_end(patience());
                        out.push(json!({"e": "idle", "c": c, "ended": end != "timeout"}));
                    }
                }
                leave(&mut cs, &mut out, c)
            },
            "left" => {
                let until = Instant::now() + patience();
                let mut x = (9999, 9999);
                while let Some((f, t)) = kid.count() {
                    x = (f - base.0, t - base.1);
                    if x == (0, 0) || Instant::now() > until { break }
                    std::thread::sleep(Duration::from_millis(3));
                }
                if x != (0, 0) { missing() }
                out.push(json!({"e": "left", "fds": x.0, "threads": x.1}));
            }
            _ => (),
        }
    }
    out
}

pub fn run(cfg: &Cfg) {
    let dir = cfg.out.clone();
    let mut hs: Vec<Vec<Value>> = cfg.behaviours().into_iter().map(|b| b.as_array().cloned().unwrap_or_default()).collect();
    // kept for a short time only
    let mut r = Rng::new(cfg.seed ^ 0x27);
    for _ in 0..cfg.scale(12, 60) {
        let n = r.range(1, 4);
        let mut v = vec![json!({"op": "pool", "n": n}), json!({"op": r.pick(&["threads", "threads", "fds"]), "n": r.range(0, 4)})];
        (0..n).for_each(|c| v.push(json!({"op": "ask", "c": c})));
        v.push(json!({"op": "idle"}));
        hs.push(v);
    }
    let res = par(hs, 3, |i, ops| history(&format!("{}/kid{}", dir, i % 64), ops));
    cfg.write_trace(&res.concat());
}
