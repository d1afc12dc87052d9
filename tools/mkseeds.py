#!/usr/bin/env python3
"""mkseeds.py [ID...]: makes /verif/seeded/<ID>/ from tools/seeds/<ID>.py and verifies it in a scratch copy of /repo:
the patch builds, passes the stable tests, and the demonstration fails with it and succeeds without it."""
import glob, json, os, shutil, subprocess, sys
V = "/verif"
W = "/tmp/seedwork/repo"
BASE = "e014347"
ENV = dict(os.environ, PATH=os.environ["PATH"] + ":/usr/local/bin:/root/.cargo/bin", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
def run(cmd, **k): return subprocess.run(cmd, cwd=W, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def git(*a): return run(["git", *a])
if not os.path.isdir(W):
    os.makedirs("/tmp/seedwork", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
git("fetch", "-q", "/repo", "HEAD"); git("checkout", "-q", "-f", head)
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def tests():
    out = "/tmp/seedwork/out.json"
    subprocess.run(["rm", "-f", W + "/target/nextest/vp/junit.xml", out])
    b = run(["cargo", "test", "--workspace", "--no-run", "--offline"])
    if b.returncode: return "build: " + b.stdout[-1500:]
    run(["cargo", "nextest", "run", "--workspace", "--lib", "--bins", "--tests", "--offline", "--profile", "vp", "--tool-config-file", "vp:/opt/vp/nextest.toml"])
    with open(W + "/target/vp-doctest.log", "w") as f:
        subprocess.run(["cargo", "test", "--workspace", "--doc", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], cwd=W, env=ENV, stdout=f, stderr=f)
    run(["python3", "/opt/vp/results.py", out, "junit:target/nextest/vp/junit.xml", "cargo:target/vp-doctest.log"])
    p = set(json.load(open(out))["passed"])
    miss = [t for t in stable if t not in p]
    return "tests: %s" % miss if miss else None
def demo(d, n=1):
    return [subprocess.run(["bash", d + "/demo.sh"], cwd=W, env=os.environ, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300) for _ in range(n)]
ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(V + "/tools/seeds/*.py"))
for i in ids:
    ns = {}
    exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), ns)
    git("checkout", "-q", "-f", head)
    bad = None
    for (f, old, new) in ns["edits"]:
        s = open(W + "/" + f).read()
        if s.count(old) != ns.get("times", 1): bad = "edit of %s matches %d times" % (f, s.count(old)); break
        open(W + "/" + f, "w").write(s.replace(old, new))
    own = []
    hunk = None
    for line in git("diff", "-U0").stdout.splitlines():
        if line.startswith("--- a/"): cur = line[6:]
        elif line.startswith("@@"): hunk = int(line.split()[1][1:].split(",")[0])
        elif line.startswith("-") and not line.startswith("---"):
            b = git("blame", "-s", "-l", "-L", "%d,%d" % (hunk, hunk), head, "--", cur).stdout
            own.append(not (b.startswith("^") or b.startswith(BASE)) and line.strip("- \t") != ""); hunk += 1
    if not bad and (not own or any(own)): bad = "does not change (only) original lines: %s" % own
    if bad: print(i, "BAD", bad, flush=True); continue
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(git("diff").stdout)
    shutil.copy(V + "/tools/demo/demo.sh", d + "/demo.sh")
    open(d + "/demo.rs", "w").write("mod util { %s }\nuse util::*;\nuse starry::*;\nuse std::io::{Read, Write};\nuse std::time::{Duration, Instant};\n%s" % (open(V + "/tools/demo/util.rs").read(), ns["demo"]))
    json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
    t = tests()
    with_ = demo(d, 2)
    git("checkout", "-q", "-f", head)
    without = demo(d, 3)
    ok = t is None and all(r.returncode not in (0, 3) for r in with_) and all(r.returncode == 0 for r in without)
    print(i, "ok" if ok else "BAD", t or "", [r.returncode for r in with_], [r.returncode for r in without], (with_[0].stdout[-300:] + " | " + without[0].stdout[-300:]) if not ok else with_[0].stdout.strip().splitlines()[-1:], flush=True)
    if not ok: subprocess.run(["rm", "-r", d])
