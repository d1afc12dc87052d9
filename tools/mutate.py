#!/usr/bin/env python3
"""mutate.py WORKERS OUT [FILE-SUBSTRING...]: plants small changes in copies of /repo (under /tmp/mut), keeps those that compile and
pass the stable tests, and runs the quick checks that are about the changed file on them. Writes one line per change to OUT."""
import concurrent.futures, hashlib, json, os, queue, re, shutil, subprocess, sys
ENV = dict(os.environ, PATH=os.environ["PATH"] + ":/usr/local/bin:/root/.cargo/bin", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
MAP = [("client/client", "C17 C18 C25"), ("http/body", "C08 C12 C14"), ("content_type", "C21 C15 C08"), ("cookie", "C19 C08 C12"),
       ("encode_type", "C13 C08"), ("header/header", "C08 C10 C13 C12 C19 C18"), ("http/method", "C21 C01 C08"), ("http/requester", "C08 C09 C14 C15 C10 C12 C13"),
       ("http/request.", "C08 C14 C15 C17 C10"), ("http/responser", "C17 C18"), ("http/response.", "C12 C13 C18 C19"), ("http/status", "C21 C12 C18"),
       ("authority/addr", "C17 C08"), ("authority/authority", "C17 C08"), ("userinfo", "C17 C08 C09"), ("url/location", "C14 C17 C08"), ("url/scheme", "C17 C08 C21"),
       ("url/url", "C17 C08"), ("http/values", "C20 C08 C15"), ("http/version", "C21 C09 C10"), ("server/context", "C08 C12 C14 C15 C02 C19 C25"),
       ("server/extend", "C03 C04"), ("server/limit", "C04"), ("server/node", "C01 C02"), ("server/router", "C01 C03 C04"),
       ("server/server", "C16 C10 C11 C09 C24 C25 C26"), ("utils/channel", "C05 C16 C04"), ("utils/compress", "C23 C13"), ("concurrent/thread.", "C05 C06"),
       ("thread_pool", "C05 C06 C07 C16"), ("cryptos", "C23 C08"), ("errors", "C23"), ("utils/log", "C24"), ("utils/strings", "C18"), ("utils/time", "C22 C11")]
OPS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|(?! )|(?<= )\|\|(?= )", "&&"),
       (r"\.eq\(", ".ne("), (r"\.ne\(", ".eq("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="),
       (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"!(?=[a-z])", ""), (r"\bif (?=[a-z])", "if !"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\bSome\(src\) => Some\(src\[0\]", "Some(src) => Some(src[src.len()-1]"), (r"\.unwrap_or\(\"\"\)", '.unwrap_or("x")'), (r"\.first\(", ".last("), (r"\.trim\(\)", ""), (r"\.find\(", ".rfind("), (r"splitn\(2", "splitn(3"), (r"\.position\(", ".rposition(")]
def sites(path):
    out = []
    lines = open("/repo/" + path).read().split("\n")
    test = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#[cfg(test)]") or s.startswith("#[test]"): test = True
        if test or s.startswith(("//", "/*", "* ", "*/", "#", "use ", "log::", "pub use", "mod ", "pub mod")) or not s: continue
        code = l.split(" //")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if m.start() > 0 and pat in (" < ", " > ") and "->" in code[m.start() - 2:m.end()]: continue
                out.append((path, n, l[:m.start()] + rep + l[m.end():] if not pat.startswith(r"\bSome") else re.sub(pat, rep, l, count=1)))
        for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w\"'.])", code):
            out.append((path, n, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
            if m.group(1) not in ("0", "1"): out.append((path, n, l[:m.start()] + str(int(m.group(1)) - 1) + l[m.end():]))
        for m in re.finditer(r"b?'(\\?.)'", code):
            out.append((path, n, l[:m.start()] + ("b" if m.group(0).startswith("b") else "") + "'~'" + l[m.end():]))
        for m in re.finditer(r"b?\"([^\"{}]+)\"", code):
            if "Errs" in l or "expect(" in l: continue
            out.append((path, n, l[:m.start(1)] + m.group(1)[:-1] + chr(ord(m.group(1)[-1]) ^ 1) + l[m.end(1):]))
        if s.endswith(";") and not s.startswith(("let ", "return", "}", "pub ", "const", "static")) and "log::" not in s and s.count("(") == s.count(")"):
            out.append((path, n, re.match(r"\s*", l).group(0) + "// " + s))
        m = re.match(r"\s*(\S+|\S+\([^()]*\)) => (?!\{)(.*[^{])$", l)
    return out
def setup(w):
    d = "/tmp/mut/%d" % w
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    os.makedirs(d + "/verif")
    for x in ("check.py", "checks.py", "specs", "harness", "known_findings.txt"): subprocess.run(["cp", "-a", "/verif/" + x, d + "/verif/" + x], check=True)
    os.makedirs(d + "/verif/evidence", exist_ok=True)
    os.makedirs(d + "/verif/build", exist_ok=True)
    subprocess.run(["cp", "-a", "/verif/build/target", d + "/verif/build/target"], check=True)
    c = open(d + "/verif/check.py").read()
    c = c.replace('REPO = "/repo"', 'REPO = "%s/repo"' % d).replace('["cargo", "clean", "--offline", "-p", "starry", "-p", "vh"]', '["cargo", "clean", "--offline", "-p", "starry", "-p", "vh"]')
    c = c.replace('    c = CHECKS[pid]\n', '    c = dict(CHECKS[pid], models=[], models_thorough=[])\n')
    c = c.replace('def gen(', 'def gen_(').replace('def harness(', """def gen(module, cfg, num, depth, seed, path):
    import glob, hashlib
    h = hashlib.md5(b"".join(open(f, "rb").read() for f in sorted(glob.glob(SPECS + "/*.tla") + glob.glob(SPECS + "/*.cfg")))).hexdigest()[:8]
    key = "/tmp/mut/gen-%s-%d-%d-%d-%s" % (cfg, num, depth, seed, h)
    if not os.path.exists(key):
        tmp = key + ".%d" % os.getpid()
        gen_(module, cfg, num, depth, seed, tmp); os.rename(tmp, key)
    with open(path, "a") as f: f.write(open(key).read())
    return open(key).read().count(chr(10))

def harness(""", 1)
    open(d + "/verif/check.py", "w").write(c)
    t = d + "/verif/harness/Cargo.toml"
    s = open(t).read().replace('path = "/repo"', 'path = "%s/repo"' % d); open(t, "w").write(s)
    return d
STABLE = None
def tests(d):
    r = subprocess.run(["cargo", "test", "--offline", "--lib", "--no-run", "-q"], cwd=d + "/repo", env=dict(ENV, CARGO_BUILD_JOBS="3", RUSTFLAGS="-Awarnings"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return "nocompile"
    x = d + "/repo/target/nextest/vp/junit.xml"
    if os.path.exists(x): os.remove(x)
    try: subprocess.run(["cargo", "nextest", "run", "--lib", "--offline", "--profile", "vp", "--tool-config-file", "vp:/opt/vp/nextest.toml"], cwd=d + "/repo", env=dict(ENV, RUSTFLAGS="-Awarnings"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired: return "tests"
    out = d + "/out.json"
    subprocess.run(["python3", "/opt/vp/results.py", out, "junit:target/nextest/vp/junit.xml"], cwd=d + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    p = set(json.load(open(out))["passed"])
    return "tests" if [t for t in STABLE if t not in p] else None
def checks_of(path): return next((c.split() for k, c in MAP if k in path), [])
def one(d, m):
    path, n, new = m
    f = d + "/repo/" + path
    src = open("/repo/" + path).read()
    lines = src.split("\n"); lines[n] = new
    open(f, "w").write("\n".join(lines))
    try:
        t = tests(d)
        if t: return t
        for c in checks_of(path):
            try: r = subprocess.run(["python3", "check.py", c], cwd=d + "/verif", env=dict(ENV, VERIF_SEED="1", CARGO_BUILD_JOBS="3"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired: return "timeout " + c
            if r.returncode == 1: return "killed " + c
            if r.returncode: return "tool %s %s" % (c, r.stdout[-300:].replace("\n", " "))
        return "SURVIVED"
    finally: open(f, "w").write(src)
if __name__ == "__main__":
    STABLE = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    w, out = int(sys.argv[1]), sys.argv[2]
    os.makedirs("/tmp/mut", exist_ok=True)
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "src"], stdout=subprocess.PIPE, text=True).stdout.split()
    files = [f for f in files if not sys.argv[3:] or any(x in f for x in sys.argv[3:])]
    ms = []
    for f in files:
        if not checks_of(f): continue
        s = sites(f)
        s.sort(key=lambda m: hashlib.md5(repr(m).encode()).hexdigest())
        per = int(os.environ.get("PER", "30"))
        ms += s[:per]
    done = set()
    if os.path.exists(out): done = {tuple(json.loads(l)["m"]) for l in open(out)}
    ms = [m for m in ms if m not in done]
    ms.sort(key=lambda m: hashlib.md5(repr(m).encode()).hexdigest())
    print(len(ms), "changes", flush=True)
    q = queue.Queue()
    for i in range(w): q.put(setup(i))
    d = q.get()
    # doctests and others the library run alone does not include are left out
    x = tests.__wrapped__ if hasattr(tests, "__wrapped__") else None
    saved = STABLE; STABLE = []; tests(d); STABLE = [t for t in saved if t in set(json.load(open(d + "/out.json"))["passed"])]
    print(len(STABLE), "tests", flush=True); q.put(d)
    def job(m):
        d = q.get()
        try: r = one(d, m)
        except Exception as e: r = "error %r" % e
        finally: q.put(d)
        with open(out, "a") as f: f.write(json.dumps(dict(m=m, r=r)) + "\n")
    with concurrent.futures.ThreadPoolExecutor(w) as ex: list(ex.map(job, ms))
