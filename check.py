#!/usr/bin/env python3
"""check.py <property id>    runs one check; VERIF_SEED and VERIF_TIER select seed and depth
   check.py --setup          builds the harness

For a property: (1) TLC explores the specification's small model, (2) TLC generates behaviours of the
specification, (3) the harness replays them, and random ones, against the code in /repo and records what it
observes, (4) TLC validates the recording against the same specification.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: the check itself failed."""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")
SPECS = os.path.join(V, "specs")
ENV = dict(os.environ)
ENV["PATH"] = ENV.get("PATH", "") + ":/usr/local/bin:/root/.cargo/bin"
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
JAVA = ["java", "-XX:+UseParallelGC", "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]

class ToolError(Exception): pass
class Unreadable(Exception): pass

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(root, n) for n in sorted(names)]
    files += [os.path.join(REPO, n) for n in ("Cargo.toml", "Cargo.lock", "build.rs") if os.path.exists(os.path.join(REPO, n))]
    hdir = os.path.join(V, "harness")
    files += [os.path.join(hdir, "Cargo.toml")] + sorted(os.path.join(hdir, "src", n) for n in os.listdir(os.path.join(hdir, "src")))
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash()
        stamp = os.path.join(BUILD, "stamp")
        exe = os.path.join(BUILD, "target", "debug", "vh")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want: return exe
        if os.path.exists(stamp): os.remove(stamp)
        hd = os.path.join(V, "harness")
        # modification times are not trusted: whatever cargo cached of the crate under test is dropped
        subprocess.run(["cargo", "clean", "--offline", "-p", "starry", "-p", "vh"], cwd=hd, env=ENV,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=hd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise ToolError("build failed:\n" + r.stdout[-4000:])
        open(stamp, "w").write(want)
        return exe

def tlc(module, cfg, args=(), env=None, workers="1", timeout=800):
    """Runs TLC; returns its output. Raises ToolError unless it finished without an error."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(BUILD, "tmp"))
    e = dict(ENV); e.update(env or {})
    java = list(JAVA)
    java[1:1] = ["-Djava.io.tmpdir=" + meta]
    try:
        r = subprocess.run(java + ["-workers", workers, "-metadir", meta, "-noGenerateSpecTE", *args, "-config", cfg, module + ".tla"],
                           cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if r.returncode == 75 and "TRACE" in (env or {}): raise Unreadable(r.stdout)
    if r.returncode != 0: raise ToolError("TLC failed on %s %s (rc %d):\n%s" % (module, cfg, r.returncode, r.stdout[-3000:]))
    return r.stdout

def run_model(module, cfg, workers="4", timeout=800):
    out = tlc(module, cfg, workers=workers, timeout=timeout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if not m or "No error has been found" not in out: raise ToolError("model %s %s did not complete:\n%s" % (module, cfg, out[-2000:]))
    return dict(model=cfg, transitions=int(m.group(1)), states=int(m.group(2)))

def gen(module, cfg, num, depth, seed, path):
    out = tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], timeout=400)
    n = 0
    seen = set()
    with open(path, "a") as f:
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                s = json.loads(line)
                if s not in seen:
                    seen.add(s); f.write(s + "\n"); n += 1
    if n == 0: raise ToolError("no behaviours from %s" % cfg)
    return n

def harness(exe, driver, out, seed, tier, beh, timeout):
    cmd = [exe, driver, "--out", out, "--seed", str(seed), "--tier", tier]
    if beh: cmd += ["--beh", beh]
    with open(os.path.join(out, "harness.log"), "w") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=log, env=ENV, start_new_session=True)
        try: rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.wait(); rc = "hang"
    tail = open(os.path.join(out, "harness.log"), errors="replace").read()[-3000:]
    if rc == 3: raise ToolError("harness: " + tail)
    return rc, tail

def validate_one(module, trace, timeout):
    try: out = tlc(module, module + ".cfg", env={"TRACE": trace}, timeout=timeout)
    except Unreadable as e:
        # the specification's operators have no value on what was recorded (a number nothing was given, a part that is missing);
        # that does not happen on recordings of behaviours it allows
        at = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", str(e), re.M)]
        return dict(done=sum(1 for _ in open(trace)), bad=[dict(l=at[-1] if at else 1, p="*", why="the recording has no meaning in the specification: " + str(e)[-1500:])])
    for line in out.splitlines():
        if line.startswith('"{') and line.endswith('"'):
            d = json.loads(json.loads(line))
            if "done" in d: return d
    raise ToolError("no report from %s:\n%s" % (module, out[-3000:]))

def validate(module, trace, timeout=800):
    """Cases are independent of each other: the recording is cut between cases and the pieces validated side by side."""
    tr = open(trace).read().splitlines()
    starts = [k for k, l in enumerate(tr) if '"e":"case"' in l]
    n = max(1, min(7, len(starts) // 25))
    per = -(-len(tr) // n)
    cuts, at = [0], per
    for k in starts[1:]:
        if k >= at: cuts.append(k); at = k + per
    cuts.append(len(tr))
    parts = []
    for i in range(len(cuts) - 1):
        f = "%s.%d" % (trace, i)
        open(f, "w").write("\n".join(tr[cuts[i]:cuts[i + 1]]) + "\n")
        parts.append((f, cuts[i], cuts[i + 1] - cuts[i]))
    rep = dict(done=0, bad=[])
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for (f, off, k), d in zip(parts, ex.map(lambda x: validate_one(module, x[0], timeout), parts)):
            if d["done"] != k: raise ToolError("%s stopped at line %s of %s" % (module, d["done"], f))
            rep["done"] += k
            for b in d["bad"]:
                b["l"] += off; rep["bad"].append(b)
            os.remove(f)
    return rep

def known():
    """fixed: lines suppress nothing; finding: property=<id> key=<substring of the violation's JSON> <text>"""
    res = []
    for line in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m: res.append(m.groups())
    return res

def main():
    from checks import CHECKS
    if sys.argv[1:] == ["--setup"]:
        build(); print("setup done"); return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    c = CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    work = os.path.join(BUILD, "run", pid)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", assumptions=c["assumptions"])
    bad, cases, lines, samples, models, nbeh = [], 0, 0, [], [], 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build)
        beh = os.path.join(work, "beh.ndjson")
        gens = c.get("gens", [])
        def do_gens():
            n = 0
            for (m, cfg, q, t, depth) in gens:
                n += gen(m, cfg, t if tier == "thorough" else q, depth, seed, beh)
            return n
        fg = ex.submit(do_gens)
        ms = list(c.get("models", [])) + (list(c.get("models_thorough", [])) if tier == "thorough" else [])
        fm = [ex.submit(run_model, m, cfg) for (m, cfg) in ms]
        exe = fb.result(); nbeh = fg.result()
        timing = c.get("exclusive", False)
        if timing: models = [f.result() for f in fm]
        for i, (driver, mod) in enumerate(c["runs"]):
            out = os.path.join(work, driver); os.makedirs(out, exist_ok=True)
            rc, tail = harness(exe, driver, out, seed, tier, beh if gens else None, c.get("timeout", 500 if tier == "quick" else 800))
            shutil.rmtree(os.path.join(out, "cwd"), ignore_errors=True)
            if rc != 0:
                bad.append(dict(p=pid, why="the process running the code under test %s" % ("did not finish" if rc == "hang" else "ended with %s" % rc), log=tail))
                continue
            trace = os.path.join(out, "trace.ndjson")
            rep = validate(mod, trace)
            tr = open(trace).read().splitlines()
            if rep["done"] != len(tr): raise ToolError("%s stopped at line %s of %d" % (mod, rep["done"], len(tr)))
            starts = [k for k, l in enumerate(tr) if '"e":"case"' in l]
            cases += len(starts); lines += len(tr)
            for k in starts[:2]:
                nxt = next((s for s in starts if s > k), len(tr))
                samples.append([json.loads(x) for x in tr[k:min(nxt, k + 6)]] if sum(map(len, tr[k:min(nxt, k + 6)])) < 6000
                               else [x[:400] for x in tr[k:min(nxt, k + 6)]])
            for b in rep["bad"]:
                if b["p"] not in (pid, "*"): continue
                k = max([s for s in starts if s < b["l"]], default=0)
                b["trace"] = [x[:3000] for x in tr[k:b["l"]]][-40:]
                bad.append(b)
        if not timing: models = [f.result() for f in fm]
    kn = [(k, t) for (p, k, t) in known() if p == pid]
    new = []
    hit = set()
    for b in bad:
        s = json.dumps(b)
        m = [t for (k, t) in kn if k in s]
        if m: hit.update(m)
        else: new.append(b)
    for t in sorted(hit): print("KNOWN-FINDING: property=%s %s" % (pid, t))
    ev["coverage"] = dict(states=sum(m["states"] for m in models), transitions=sum(m["transitions"] for m in models),
                          traces_validated_against_impl=cases, trace_events_validated=lines, behaviours_generated_by_tlc=nbeh,
                          models=models, samples=samples or ["none"])
    ev["violations"] = len(new)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        path = os.path.join(BUILD, "replay", pid + ".json")
        json.dump(dict(property=pid, seed=seed, tier=tier, violations=new[:20], total=len(new)), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("%d rejected observation(s); first: %s" % (len(new), json.dumps(new[0])[:1500]))
        return 1
    print("OK property=%s cases=%d events=%d states=%d wall=%.1fs" % (pid, cases, lines, ev["coverage"]["states"], ev["wall_s"]))
    return 0

if __name__ == "__main__":
    sys.path.insert(0, V)
    try: sys.exit(main())
    except ToolError as e:
        print("TOOL-ERROR", e); sys.exit(2)
