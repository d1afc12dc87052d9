//! C05, C06, C07: scripts and stress for the thread pool, recorded under one lock.
use crate::util::*;
use serde_json::{json, Value};
use starry::utils::concurrent::ThreadPool;
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Rec {
    log: Vec<Value>,
    phase: HashMap<usize, &'static str>,
    run: HashMap<usize, &'static str>,
    open: Vec<usize>,
    all_open: bool,
    next: usize,
}
struct Case {
    m: Mutex<Rec>,
    c: Condvar,
    size: usize,
    prefix: String,
    stack: usize,
}

/// The stack of the calling thread in bytes
fn stack() -> usize {
    unsafe {
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        let (mut at, mut n) = (std::ptr::null_mut(), 0);
        if libc::pthread_getattr_np(libc::pthread_self(), &mut a) != 0 { return usize::MAX }
        libc::pthread_attr_getstack(&a, &mut at, &mut n);
        libc::pthread_attr_destroy(&mut a);
        n
    }
}

impl Case {
    fn waiting(r: &Rec) -> usize {
        r.phase.iter().filter(|(t, p)| (**p == "calling" || **p == "accepted") && !r.run.contains_key(t)).count()
    }
    fn running(r: &Rec) -> usize {
        r.run.values().filter(|s| **s == "running").count()
    }
    /// Waits for `f`, records `e` in the same critical section; false if it had to give up.
    fn until(&self, f: impl Fn(&Rec) -> bool, e: Value) -> bool {
        let end = Instant::now() + patience().min(Duration::from_secs(15));
        let mut g = lock(&self.m);
        loop {
            let ok = f(&g);
            let now = Instant::now();
            if ok || now >= end {
                if !ok {
                    missing()
                }
                g.log.push(e);
                return ok;
            }
            g = self.c.wait_timeout(g, (end - now).min(Duration::from_millis(50))).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
    fn settle(&self) -> bool {
        let size = self.size;
        self.until(|r| Case::waiting(r) == 0 || Case::running(r) == size, json!({"e": "settle"}))
    }
    fn drain(&self) -> bool {
        self.until(|r| Case::waiting(r) == 0 && Case::running(r) == 0, json!({"e": "drain"}))
    }
    fn open(&self, t: Option<usize>) {
        let mut g = lock(&self.m);
        match t {
            Some(t) => g.open.push(t),
            None => g.all_open = true,
        }
        self.c.notify_all();
    }
    fn note(&self, e: Value) {
        lock(&self.m).log.push(e);
        self.c.notify_all();
    }
}

/// Submits one task of the given kind. Returns whether it was accepted.
fn submit(case: &Arc<Case>, pool: &ThreadPool, t: usize, kind: &str, spin: usize) -> bool {
    submit_with(case, pool, t, kind, spin, || {})
}
fn submit_with(case: &Arc<Case>, pool: &ThreadPool, t: usize, kind: &str, spin: usize, last: impl FnOnce() + Send + 'static) -> bool {
    {
        let mut g = lock(&case.m);
        g.phase.insert(t, "calling");
        g.log.push(json!({"e": "call", "t": t, "k": kind}));
    }
    let (c, kind) = (case.clone(), kind.to_string());
    let own = if kind == "nest" { Some(pool.clone()) } else { None };
    let body = move || {
        {
            let mut g = lock(&c.m);
            g.run.insert(t, "running");
            let ok = std::thread::current().name().map(|n| n.starts_with(&c.prefix)).unwrap_or(false);
            g.log.push(json!({"e": "start", "t": t, "name": ok, "stack": stack() / 1024}));
            c.c.notify_all();
            if kind.starts_with("gate") {
                while !g.all_open && !g.open.contains(&t) {
                    g = c.c.wait(g).unwrap_or_else(|e| e.into_inner());
                }
            }
        }
        for i in 0..spin {
            std::hint::black_box(i);
        }
        if let Some(p) = own {
            let n = {
                let mut g = lock(&c.m);
                g.next += 1;
                100_000 + g.next
            };
            submit(&c, &p, n, "quick", 0);
        }
        let panics = kind.ends_with("panic");
        {
            let mut g = lock(&c.m);
            g.run.insert(t, "done");
            g.log.push(json!({"e": "end", "t": t, "panic": panics}));
            c.c.notify_all();
        }
        last();
        if panics {
            panic!("planned")
        }
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pool.execute(body)));
    let ok = matches!(r, Ok(Ok(())));
    let mut g = lock(&case.m);
    g.phase.insert(t, if ok { "accepted" } else { "rejected" });
    g.log.push(json!({"e": "ret", "t": t, "ok": ok}));
    case.c.notify_all();
    ok
}

/// Number of live threads whose name starts with `prefix`.
fn threads(prefix: &str) -> usize {
    let prefix = &prefix[..prefix.len().min(15)];
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path().join("comm")) {
                if s.starts_with(prefix) {
                    n += 1
                }
            }
        }
    }
    n
}
fn gone(case: &Case) -> bool {
    let end = Instant::now() + patience().min(Duration::from_secs(15));
    loop {
        let n = threads(&case.prefix);
        let drained = { let g = lock(&case.m); Case::waiting(&g) == 0 && Case::running(&g) == 0 };
        if (n == 0 && drained) || Instant::now() >= end {
            if n > 0 || !drained {
                missing()
            }
            case.note(json!({"e": "gone", "left": n}));
            return n == 0;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn make(p: &str, i: usize, size: usize, cap: usize, r: &mut Rng) -> (Arc<Case>, ThreadPool) {
    // told apart by what the system keeps of a thread's name: its first 15 bytes
    let prefix = match r.below(3) { 0 => format!("p{}-{}", i, "of-a-pool-".repeat(r.range(1, 9))), _ => format!("p{}-", i) };
    // a stack size beyond the usual one can be told from it
    let stack = *r.pick(&[0, 0, 1 << 19, 1 << 20, 4 << 20, 5 << 20]);
    let mut set = stack;
    let pool = match if cap == 100 { r.below(3) } else { r.below(2) } {
        0 => ThreadPool::new_custom(prefix.clone(), size, stack, cap),
        1 => {
            let mut b = ThreadPool::builder();
            b.pool_size(size);
            if stack > 0 { b.stack_size(stack); }
            b.task_count(cap);
            b.name_prefix(prefix.as_str());
            b.create()
        }
        _ => { set = 0; ThreadPool::new_with_name(prefix.clone(), size) }
    }.unwrap_or_else(|e| tool_error(&format!("pool: {}", e)));
    let case = Arc::new(Case { m: Mutex::new(Rec::default()), c: Condvar::new(), size, prefix, stack: set });
    case.note(json!({"e": "case", "p": p, "size": size, "cap": cap, "stack": case.stack / 1024, "reported": pool.size()}));
    (case, pool)
}

/// Runs `f` on a thread of its own; a case that does not come back is recorded as stuck.
fn guarded(case: Arc<Case>, f: impl FnOnce() + Send + 'static) -> Vec<Value> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        f();
        let _ = tx.send(());
    });
    if rx.recv_timeout(patience() * 3).is_err() {
        missing();
        case.note(json!({"e": "stuck"}));
    }
    let v = lock(&case.m).log.clone();
    v
}

fn script(p: &str, i: usize, ops: &[Value], r: &mut Rng) -> Vec<Value> {
    let u = |v: &Value| v.as_u64().unwrap() as usize;
    let (case, pool) = make(p, i, u(&ops[0]["size"]), u(&ops[0]["cap"]), r);
    let (c, ops, closing) = (case.clone(), ops[1..].to_vec(), p == "C07");
    guarded(case, move || {
        let mut hs: HashMap<usize, ThreadPool> = HashMap::new();
        hs.insert(1, pool);
        let mut fine = true;
        for o in &ops {
            match o["op"].as_str().unwrap() {
                "submit" => { submit(&c, &hs[&u(&o["h"])], u(&o["t"]), o["k"].as_str().unwrap(), 0); }
                "release" => c.open(Some(u(&o["t"]))),
                "settle" => fine = fine && c.settle(),
                "clone" => { let n = hs[&u(&o["h"])].clone(); hs.insert(u(&o["to"]), n); c.note(json!({"e": "clone"})); }
                _ => { hs.remove(&u(&o["h"])); c.note(json!({"e": "drop"})); }
            }
            if !fine {
                break;
            }
        }
        if closing {
            hs.clear();
            c.open(None);
            gone(&c);
        } else if fine {
            c.open(None);
            if c.drain() {
                probe(&c, hs.values().next().unwrap(), 500_000);
                c.drain();
            }
        } else {
            c.open(None);
        }
    })
}

/// As many gated tasks as there are workers must run at once.
fn probe(c: &Arc<Case>, pool: &ThreadPool, first: usize) {
    lock(&c.m).all_open = false;
    for k in 0..c.size {
        // a full queue is possible here: workers may not have taken the earlier ones yet
        let mut t = 0;
        while !submit(c, pool, first + k + t * 1000, "gate", 0) && t < 20 {
            c.settle();
            t += 1;
        }
    }
    c.until(|r| Case::running(r) == c.size, json!({"e": "settle"}));
    c.open(None);
}

/// Many submitters and short tasks: `rounds` rounds, each settled.
fn stress(p: &str, i: usize, r: &mut Rng, rounds: usize) -> Vec<Value> {
    let size = r.range(1, 4);
    let cap = if r.chance(1, 4) { 100 } else { r.range(1, 6) };
    let (case, pool) = make(p, i, size, cap, r);
    let c = case.clone();
    let mut r = r.fork();
    let (panics, closing) = (p != "C05", p == "C07");
    guarded(case, move || {
        let mut base = 1;
        let mut pool = Some(pool);
        let mut fine = true;
        for _ in 0..rounds {
            let nthreads = r.range(1, 3);
            let per = r.range(1, 4);
            let gate = Arc::new(std::sync::Barrier::new(nthreads));
            let mut ts = vec![];
            for _ in 0..nthreads {
                let (c, gate, pool, mut r) = (c.clone(), gate.clone(), pool.as_ref().unwrap().clone(), r.fork());
                let first = base;
                base += per;
                ts.push(std::thread::spawn(move || {
                    gate.wait();
                    for k in 0..per {
                        let kind = if panics && r.chance(1, 3) { "panic" } else { "quick" };
                        submit(&c, &pool, first + k, kind, r.below(600));
                        for x in 0..r.below(6000) {
                            std::hint::black_box(x);
                        }
                    }
                }));
            }
            for t in ts {
                let _ = t.join();
            }
            fine = c.settle();
            if !fine {
                break;
            }
        }
        if closing {
            pool = None;
            gone(&c);
        } else if fine && c.drain() {
            probe(&c, pool.as_ref().unwrap(), 500_000);
            c.drain();
        }
        drop(pool);
    })
}

/// A submission at the moment the worker turns idle, again and again.
fn race(p: &str, i: usize, r: &mut Rng, rounds: usize) -> Vec<Value> {
    let size = r.range(1, 2);
    let (case, pool) = make(p, i, size, 4, r);
    let c = case.clone();
    let mut r = r.fork();
    let (panics, closing) = (p != "C05", p == "C07");
    let mut center = 2000;
    guarded(case, move || {
        let mut fine = true;
        let mut pool = Some(pool);
        for k in 0..rounds {
            let flag = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let first = 10 * k + 1;
            for x in 0..size - 1 {
                submit(&c, pool.as_ref().unwrap(), first + 5 + x, "gate", 0);
            }
            let f2 = flag.clone();
            let kind = if panics && r.chance(1, 2) { "panic" } else { "quick" };
            submit_with(&c, pool.as_ref().unwrap(), first, kind, 300, move || f2.store(true, std::sync::atomic::Ordering::SeqCst));
            let give_up = Instant::now() + patience();
            while !flag.load(std::sync::atomic::Ordering::SeqCst) && Instant::now() < give_up {}
            for x in 0..r.below(center) {
                std::hint::black_box(x);
            }
            // around the turning point both ways of handing the task over are seen
            center = if r.chance(1, 2) { 200 } else { r.range(100, 12000) };
            submit(&c, pool.as_ref().unwrap(), first + 1, "quick", 0);
            if closing && k + 1 == rounds {
                c.open(None);
                pool = None;
                gone(&c);
                return;
            }
            fine = c.until(|r| r.run.get(&(first + 1)) == Some(&"done"), json!({"e": "note"})) || c.settle();
            c.open(None);
            if !fine || !c.drain() {
                fine = false;
                break;
            }
            lock(&c.m).all_open = false;
        }
        if fine {
            probe(&c, pool.as_ref().unwrap(), 500_000);
            c.drain();
        }
        drop(pool);
    })
}

/// Fills the pool and its queue completely: the next submission must be refused, and every accepted one runs.
fn filled(p: &str, i: usize, large: bool, r: &mut Rng) -> Vec<Value> {
    let size = if large && r.chance(1, 3) { r.range(64, 140) } else { r.range(1, 4) };
    let cap = match (large, r.below(5)) { (true, 0 | 1) => r.range(1024, 2500), (true, _) => r.range(120, 600), (_, 0) => 100, _ => r.range(1, 12) };
    let (case, pool) = make(p, i, size, cap, r);
    let c = case.clone();
    let kinds: Vec<&'static str> = (0..size + cap + 2).map(|_| if p != "C05" && r.chance(1, 2) { "gatepanic" } else { "gate" }).collect();
    let closing = p == "C07";
    guarded(case, move || {
        for k in 0..size {
            submit(&c, &pool, 1 + k, kinds[k], 0);
        }
        if !c.until(|r| Case::running(r) == size, json!({"e": "settle"})) {
            c.open(None);
            return;
        }
        for k in size..size + cap + 2 {
            submit(&c, &pool, 1 + k, kinds[k], 0);
        }
        // worker by worker, each freed one takes a waiting task
        for k in 0..size.min(2) {
            c.open(Some(1 + k));
            c.settle();
        }
        if closing {
            drop(pool);
            c.open(None);
            gone(&c);
        } else {
            c.open(None);
            if c.drain() {
                probe(&c, &pool, 500_000);
                c.drain();
            }
        }
    })
}

const GIB: u64 = 1 << 30;
/// While it lives this process has room for `n` stacks of 4 GiB and not for one more.
struct Scarce(libc::rlimit);
impl Scarce {
    fn new(n: usize) -> Scarce {
        let used = std::fs::read_to_string("/proc/self/status").ok()
            .and_then(|t| t.lines().find_map(|l| l.strip_prefix("VmSize:").and_then(|v| v.split_whitespace().next()?.parse::<u64>().ok())));
        let Some(used) = used else { tool_error("no VmSize") };
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe { libc::getrlimit(libc::RLIMIT_AS, &mut old) };
        let new = libc::rlimit { rlim_cur: (used * 1024 + n as u64 * 4 * GIB + 3 * GIB).min(old.rlim_max), rlim_max: old.rlim_max };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &new) };
        Scarce(old)
    }
}
impl Drop for Scarce {
    fn drop(&mut self) {
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &self.0) };
    }
}

/// A pool in a process that has no room for a further thread: there are just as many as it wants, or fewer.
fn scarce(p: &str, i: usize, r: &mut Rng) -> Vec<Value> {
    let (size, cap) = (r.range(1, 3), r.range(2, 8));
    let room = if p == "C07" && r.chance(1, 2) { r.below(size) } else { size };
    let prefix = format!("q{}-", i);
    let limit = Scarce::new(room);
    let made = std::panic::catch_unwind(|| ThreadPool::new_custom(prefix.clone(), size, 4 * GIB as usize, cap));
    let case = Arc::new(Case { m: Mutex::new(Rec::default()), c: Condvar::new(), size, prefix, stack: 0 });
    let pool = match made {
        Ok(Ok(pool)) => pool,
        x => {
            case.note(json!({"e": "case", "p": p, "size": size, "cap": cap, "stack": 0, "reported": size}));
            case.note(json!({"e": "unmade", "panic": x.is_err()}));
            gone(&case);
            drop(limit);
            let v = lock(&case.m).log.clone();
            return v;
        }
    };
    case.note(json!({"e": "case", "p": p, "size": size, "cap": cap, "stack": 4 * GIB / 1024, "reported": pool.size()}));
    let c = case.clone();
    let mut r = r.fork();
    let closing = p == "C07";
    let v = guarded(case, move || {
        let mut fine = true;
        for t in 1..=r.range(2, 12) {
            submit(&c, &pool, t, if r.chance(1, 2) { "panic" } else { "quick" }, r.below(3000));
            if r.chance(1, 2) { fine = fine && c.settle() }
            if !fine { break }
        }
        if closing {
            drop(pool);
            gone(&c);
        } else if fine && c.drain() {
            probe(&c, &pool, 500_000);
            c.drain();
        }
    });
    drop(limit);
    v
}

pub fn run(cfg: &Cfg, p: &str) {
    let mut r = Rng::new(cfg.seed);
    enum Job { Script(Vec<Value>), Stress(usize), Filled(bool), Race(usize) }
    let mut jobs: Vec<(Job, Rng)> = cfg.behaviours().into_iter().map(|b| (Job::Script(b.as_array().unwrap().clone()), r.fork())).collect();
    for _ in 0..cfg.scale(24, 120) {
        jobs.push((Job::Filled(false), r.fork()));
    }
    for _ in 0..cfg.scale(5, 30) {
        jobs.push((Job::Filled(true), r.fork()));
    }
    for _ in 0..cfg.scale(24, 200) {
        jobs.push((Job::Race(if p == "C07" { r.range(1, 20) } else { 40 }), r.fork()));
    }
    for _ in 0..cfg.scale(60, 600) {
        jobs.push((Job::Stress(if p == "C07" { r.range(1, 6) } else { 20 }), r.fork()));
    }
    let res = par(jobs, 4, |i, (j, r)| {
        let mut r = r.clone();
        match j {
            Job::Script(ops) => script(p, i, ops, &mut r),
            Job::Race(n) => race(p, i, &mut r, *n),
            Job::Filled(large) => filled(p, i, *large, &mut r),
            Job::Stress(n) => stress(p, i, &mut r, *n),
        }
    });
    let mut out = res.concat();
    if p != "C05" {
        for i in 0..cfg.scale(12, 60) {
            out.extend(scarce(p, i, &mut r));
        }
    }
    cfg.write_trace(&out);
}
