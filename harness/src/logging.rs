//! C24: where log records go.  Runs in its own process and working directory; standard output goes to a file.
use crate::http::text;
use crate::util::*;
use log::{Level, LevelFilter};
use serde_json::{json, Value};
use starry::utils::log::{set_log_test, LogModule};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Barrier;

fn filter(s: &str) -> LevelFilter {
    match s { "Off" => LevelFilter::Off, "Error" => LevelFilter::Error, "Warn" => LevelFilter::Warn, "Info" => LevelFilter::Info, "Debug" => LevelFilter::Debug, _ => LevelFilter::Trace }
}
fn level(s: &str) -> Level {
    match s { "Error" => Level::Error, "Warn" => Level::Warn, "Info" => Level::Info, "Debug" => Level::Debug, _ => Level::Trace }
}
const LEVELS: [&str; 6] = ["", "Error", "Warn", "Info", "Debug", "Trace"];
fn path(v: &Value) -> String {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("")).collect::<Vec<_>>().join("::")).unwrap_or_default()
}
fn module(v: &Value, main: bool) -> LogModule {
    let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
    LogModule {
        name: s("name"), pkg: if main { String::new() } else { path(&v["pkg"]) }, level: filter(&s("level")), additive: v["add"].as_bool().unwrap_or(true), dir: s("dir"),
        file_max_size: v["size"].as_u64().unwrap_or(1), file_max_count: v["count"].as_u64().unwrap_or(1) as u32,
    }
}
struct Sent { target: String, level: Level, msg: String }
struct World { root: String, out: std::fs::File, id: i64, sent: HashMap<i64, Sent> }

/// One line of a log file: the number it begins its message with (-1: none), its length
fn lines(file: &std::path::Path) -> Lines {
    use std::os::unix::fs::MetadataExt;
    thread_local!(static READ: std::cell::RefCell<HashMap<(u64, u64, i64, i64), Lines>> = Default::default());
    // big files are not read again while they stay the same
    let key = std::fs::metadata(file).map(|m| (m.ino(), m.len(), m.mtime(), m.mtime_nsec())).unwrap_or_default();
    if key.1 < 100_000 { return read_lines(file).into() }
    if let Some(v) = READ.with(|c| c.borrow().get(&key).cloned()) { return v }
    let v: Lines = read_lines(file).into();
    READ.with(|c| { let mut c = c.borrow_mut(); if c.len() > 40 { c.clear() } c.insert(key, v.clone()) });
    v
}
type Lines = std::rc::Rc<[(i64, Vec<u8>)]>;
fn read_lines(file: &std::path::Path) -> Vec<(i64, Vec<u8>)> {
    let data = std::fs::read(file).unwrap_or_default();
    let mut rd = &data[..];
    let mut v = vec![];
    loop {
        let mut l = vec![];
        if rd.read_until(b'\n', &mut l).unwrap_or(0) == 0 { return v }
        let head = String::from_utf8_lossy(&l[..l.len().min(300)]).to_string();
        let id = head.find("\"message\":\"").map(|i| head[i + 11..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|d| d.parse().ok()).unwrap_or(-1);
        v.push((id, l));
    }
}
type Files = BTreeMap<(String, String), BTreeMap<usize, Lines>>;
fn walk(dir: &str, files: &mut Files, extra: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let name = e.file_name().to_string_lossy().to_string();
        if e.path().is_dir() { walk(&format!("{}/{}", dir, name), files, extra); continue }
        let Some(stem) = name.strip_suffix(".log") else { extra.push(format!("{}/{}", dir, name)); continue };
        let (n, k) = match stem.rfind("-log-") {
            Some(i) if stem[i + 5..].parse::<usize>().is_ok() => (&stem[..i], stem[i + 5..].parse().unwrap_or(0)),
            _ => (stem, 0),
        };
        files.entry((dir.to_string(), n.to_string())).or_default().insert(k, lines(&e.path()));
    }
}
impl World {
    fn files(&self) -> (Files, Vec<String>) {
        let (mut f, mut x) = (Files::new(), vec![]);
        walk(&self.root, &mut f, &mut x);
        walk("./test/logs", &mut f, &mut x);
        walk("tmp", &mut f, &mut x);
        (f, x)
    }
    fn with_snap(&self, mut e: Value) -> Value {
        let (f, extra) = self.files();
        let part = |v: Option<&Lines>| Value::Array(v.map(|v| v.iter().map(|(i, l)| json!([i, l.len()])).collect()).unwrap_or_default());
        e["snap"] = f.iter().map(|((d, n), parts)| {
            let top = parts.keys().max().copied().unwrap_or(0);
            json!({"p": [d, n], "now": part(parts.get(&0)), "old": (1..=top).map(|k| part(parts.get(&k))).collect::<Vec<_>>()})
        }).collect();
        e["extra"] = json!(extra);
        e
    }
    /// what has been printed since the last time
    fn printed(&mut self) -> Vec<u8> {
        let mut v = vec![];
        let _ = self.out.read_to_end(&mut v);
        v
    }
    fn compose(&mut self, o: &Value, big: bool, r: &mut Rng) -> i64 {
        self.id += 1;
        let mut msg = format!("{}:{}", self.id, text(r, o["n"].as_u64().unwrap_or(0) as usize, ""));
        if big { msg.extend(std::iter::repeat('x').take(o["big"].as_u64().unwrap_or(0) as usize)) }
        self.sent.insert(self.id, Sent { target: path(&o["t"]), level: level(o["l"].as_str().unwrap_or("")), msg });
        self.id
    }
    /// a line as the spec is told of it, None if it is no line of ours
    fn read_line(&self, l: &[u8], id: i64) -> Option<Value> {
        let s = self.sent.get(&id)?;
        let j: Value = serde_json::from_slice(l).ok()?;
        let m = j["message"].as_str()?;
        Some(json!({"level": j["level"], "target": j["target"], "n": m.len(), "same": m == s.msg, "msg": bytes(&m.as_bytes()[..m.len().min(40)]), "b": l.len()}))
    }
    fn emit(&self, id: i64) {
        let s = &self.sent[&id];
        log::log!(target: &s.target, s.level, "{}", s.msg);
    }
    /// `o` made so long that the fullest file comes to a multiple of a megabyte, and `off` bytes more
    fn edge(&self, o: &Value, off: i64) -> Value {
        let size = |v: &Lines| v.iter().map(|l| l.1.len() as i64).sum::<i64>();
        let (f, _) = self.files();
        let Some(now) = f.values().filter_map(|p| p.get(&0)).max_by_key(|v| size(v) & 0xfffff) else { return o.clone() };
        let Some(s) = now.last().and_then(|l| self.sent.get(&l.0).map(|s| (l, s))) else { return o.clone() };
        let ((id, line), s) = s;
        let rest = line.len() as i64 - s.msg.len() as i64 + (self.id + 1).to_string().len() as i64 + 1;
        let to = (size(now) / (1 << 20) + 1) * (1 << 20) + off;
        let big = to - size(now) - rest;
        if big < 0 || *id < 0 { return o.clone() }
        json!({"t": s.target.split("::").collect::<Vec<_>>(), "l": LEVELS[s.level as usize], "n": 0, "big": big})
    }
    fn record(&mut self, o: &Value, r: &mut Rng) -> Value {
        let id = self.compose(o, true, r);
        self.printed();
        self.emit(id);
        let p = self.printed();
        let s = &self.sent[&id];
        let tail = format!(" {} {} {}\n", s.level, s.target, s.msg);
        let stdok = p.ends_with(tail.as_bytes()) && { let h = &p[..p.len() - tail.len()]; !h.is_empty() && h.iter().all(|b| b.is_ascii_graphic()) };
        let (f, _) = self.files();
        let mut found = vec![];
        for ((d, n), parts) in &f { for (k, ls) in parts { for (i, l) in ls.iter() { if *i == id {
            let mut x = self.read_line(l, id).unwrap_or(json!({"level": "", "target": "", "n": 0, "same": false, "msg": [], "b": l.len()}));
            x["p"] = json!([d, n]);
            x["k"] = json!(k);
            found.push(x);
        } } } }
        let m = s.msg.as_bytes();
        self.with_snap(json!({"e": "rec", "t": o["t"], "l": o["l"], "target": s.target, "id": id, "n": m.len(), "msg": bytes(&m[..m.len().min(40)]), "lines": found,
            "enabled": log::log_enabled!(target: &s.target, s.level), "stdn": p.len(), "stdok": stdok}))
    }
    /// the records of several threads; `c`: a configuration set meanwhile
    fn burst(&mut self, recs: &[Value], c: Option<&Value>, r: &mut Rng) -> Option<Value> {
        if self.files().0.values().flat_map(|p| p.values()).any(|ls| ls.iter().map(|l| l.1.len()).sum::<usize>() > 900_000) { return None }
        let n = r.range(2, 4);
        let mut per: Vec<Vec<i64>> = vec![vec![]; n];
        let mut told = vec![];
        // several rounds, so that the threads do meet
        for k in 0..24 {
            let o = &recs[k % recs.len()];
            let th = r.below(n);
            let id = self.compose(o, false, r);
            per[th].push(id);
            told.push(json!({"id": id, "t": o["t"], "l": o["l"], "th": th}));
        }
        let before: std::collections::HashSet<i64> = self.files().0.values().flat_map(|p| p.values()).flat_map(|l| l.iter()).map(|x| x.0).collect();
        let gate = Barrier::new(n + 1);
        let this = &*self;
        let ok = std::thread::scope(|s| {
            for ids in &per { let gate = &gate; s.spawn(move || { gate.wait(); for i in ids { this.emit(*i) } }); }
            gate.wait();
            c.map(|c| set(c))
        });
        let broken = self.files().0.values().flat_map(|p| p.values()).flat_map(|l| l.iter()).filter(|x| !before.contains(&x.0))
            .any(|(id, l)| self.read_line(l, *id).map(|x| { let s = &self.sent[id]; x["same"] != true || x["level"] != s.level.as_str() || x["target"] != s.target.as_str() }).unwrap_or(true));
        let mut e = json!({"e": if c.is_some() { "race" } else { "burst" }, "recs": told, "broken": broken});
        if let Some(c) = c { e["conf"] = c.clone(); e["ok"] = json!(ok) }
        Some(self.with_snap(e))
    }
}
fn set(c: &Value) -> bool {
    catch_unwind(AssertUnwindSafe(|| module(&c["main"], true).config_log(c["mods"].as_array().cloned().unwrap_or_default().iter().map(|m| module(m, false)).collect()))).is_ok()
}
/// The configuration with its directories under the root of the case
fn placed(c: &Value, root: &str) -> Value {
    let mut c = c.clone();
    let place = |v: &mut Value| { let d = v["dir"].as_str().unwrap_or("").to_string(); if !d.is_empty() { v["dir"] = json!(format!("{}/{}", root, d)) } };
    place(&mut c["main"]);
    if let Some(ms) = c["mods"].as_array_mut() { ms.iter_mut().for_each(place) }
    c
}

fn case(n: usize, items: &[Value], big: bool, out_path: &str, r: &mut Rng) -> Vec<Value> {
    let root = format!("c{}", n);
    let _ = std::fs::remove_dir_all("./test");
    let _ = std::fs::remove_dir_all("./tmp");
    let mut f = std::fs::File::open(out_path).expect("stdout");
    let _ = f.seek(SeekFrom::End(0));
    let mut w = World { root: root.clone(), out: f, id: 0, sent: HashMap::new() };
    let mut out = vec![json!({"e": "case", "p": "C24"})];
    let first = json!({"main": {"name": "main", "dir": format!("{}/d1", root), "level": *r.pick(&["Info", "Warn", "Trace"]), "size": 1, "count": 2}, "mods": []});
    let ok = set(&first);
    out.push(w.with_snap(json!({"e": "config", "conf": first, "ok": ok})));
    for o in items {
        match o["op"].as_str().unwrap_or("") {
            "config" => { let c = placed(&o["conf"], &root); let ok = set(&c); out.push(w.with_snap(json!({"e": "config", "conf": c, "ok": ok}))) }
            "test" => {
                let ok = catch_unwind(set_log_test).is_ok();
                let c = json!({"main": {"name": "test", "dir": "./test/logs", "level": "Debug", "size": 1024, "count": 7}, "mods": []});
                out.push(w.with_snap(json!({"e": "config", "conf": c, "ok": ok})))
            }
            // a server that is made to listen brings its own configuration, also if it cannot listen
            "serve" => {
                let c = placed(&o["conf"], &root);
                let mut s = starry::HttpServer::new();
                let m = &c["main"];
                let conf = if r.chance(1, 4) {
                    json!({"name": "starry-http-server", "dir": "tmp", "level": "Trace", "size": 1024, "count": 7})
                } else {
                    let (size, count) = (m["size"].as_u64().unwrap_or(1), m["count"].as_u64().unwrap_or(1) as u32);
                    if r.chance(1, 3) { s.set_log(LevelFilter::Warn, format!("{}/never", root), 3, 3) }
                    s.set_log(filter(m["level"].as_str().unwrap_or("")), m["dir"].as_str().unwrap_or("").to_string(), size, count);
                    json!({"name": "starry-http", "dir": m["dir"], "level": m["level"], "size": m["size"], "count": m["count"]})
                };
                s.set_pool_size(1);
                let s = if r.chance(1, 3) { s.clone() } else { s };
                let ok = if r.chance(2, 3) { catch_unwind(AssertUnwindSafe(|| s.listener("nowhere"))).map(|x| x.is_err()).unwrap_or(false) } else {
                    let port = std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map(|a| a.port()).unwrap_or(0);
                    std::thread::spawn(move || { let _ = s.listener(("127.0.0.1", port)); });
                    let end = std::time::Instant::now() + patience();
                    let hex = format!("0100007F:{:04X} 00000000:0000 0A", port);
                    let mut up = false;
                    while !up && std::time::Instant::now() < end { up = std::fs::read_to_string("/proc/self/net/tcp").unwrap_or_default().contains(&hex) }
                    up
                };
                out.push(w.with_snap(json!({"e": "config", "conf": {"main": conf, "mods": []}, "ok": ok})));
            }
            "edge" => { let q = w.edge(&o["rec"], o["off"].as_i64().unwrap_or(0)); out.push(w.record(&q, r)) }
            "rec" => { let mut q = o["rec"].clone(); if !big { q["big"] = json!(0) } out.push(w.record(&q, r)) }
            op => {
                let c = placed(&o["conf"], &root);
                let recs = o["recs"].as_array().cloned().unwrap_or_default();
                out.extend(w.burst(&recs, if op == "race" { Some(&c) } else { None }, r));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    out
}

pub fn run(cfg: &Cfg) {
    let out_path = format!("{}/stdout.txt", cfg.out);
    let f = std::fs::File::create(&out_path).expect("stdout");
    unsafe { libc::dup2(f.as_raw_fd(), 1) };
    let mut r = Rng::new(cfg.seed ^ 0x24);
    let mut out = vec![json!({"e": "case", "p": "C24"})];
    // nothing is written before a configuration is set, and nothing left behind
    let enabled = log::log_enabled!(Level::Error);
    log::error!("before");
    let _ = std::panic::catch_unwind(|| { let _ = starry::utils::log::GLOBAL_LOG.read().map(|_| ()); });
    let enabled = enabled || log::log_enabled!(Level::Error);
    log::error!("still before");
    let left: Vec<String> = std::fs::read_dir(".").map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    out.push(json!({"e": "first", "left": left, "enabled": enabled}));
    for (i, b) in cfg.behaviours().iter().enumerate() {
        out.extend(case(i, b.as_array().map(|v| &v[..]).unwrap_or(&[]), i % 4 == 3 || b.to_string().contains("\"roll\":true"), &out_path, &mut r));
    }
    let _ = std::fs::remove_dir_all("./test");
    let _ = std::fs::remove_dir_all("./tmp");
    cfg.write_trace(&out);
}
