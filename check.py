#!/usr/local/bin/python3
"""Driver of every check: builds the property's test binary from /repo's
current tree, runs it in a scratch directory, writes evidence/<id>.json.

  check.py ID              run one property's check (VERIF_TIER, VERIF_SEED)
  check.py --setup         warm the build caches
  check.py --replay FILE   run a saved failing case again
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
LIBS = os.path.join(ROOT, "build")  # ignored by git
MODFILE = os.path.join(ROOT, "overlay", "go.mod")

# property -> (package, options). Packages with "overlay" are test files laid
# over a package of /repo; the others import /repo from the outside.
from checks import CHECKS  # noqa: E402

LIMIT = {"quick": 800, "thorough": 14000}


def goenv(c=None):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
             CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", GOFLAGS="")
    e["PATH"] = ("/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:"
                 "/usr/sbin:/usr/bin:/sbin:/bin")
    e["VK_ROOT"] = ROOT
    if c and c.get("clib"):
        # paths that stay the same, so that go's cache holds
        e["CGO_CFLAGS"] = "-O2 -g -I" + os.path.dirname(os.path.join(HARNESS, c["clib"][0]))
        e["CGO_LDFLAGS"] = "-O2 -g -L" + LIBS
    return e


def build_clib(c):
    src, name = c["clib"]
    os.makedirs(LIBS, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=LIBS)
    try:
        lib = os.path.join(tmp, "lib%s.a" % name)
        for cmd in (["gcc", "-O2", "-fPIC", "-c", os.path.join(HARNESS, src), "-o", lib + ".o"], ["ar", "rcsD", lib, lib + ".o"]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                die("the stand-in library does not build: " + p.stdout)
        os.replace(lib, os.path.join(LIBS, "lib%s.a" % name))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def build(pid, scratch, tags=""):
    c = CHECKS[pid]
    out = os.path.join(scratch, "check%s.test" % tags)
    cmd = ["go", "test", "-c", "-vet=off", "-buildvcs=false", "-o", out]
    if c.get("race"):
        # old versions of x/crypto and keccak convert pointers in a way that the
        # pointer checks of race builds reject
        cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
    if c.get("clib"):
        build_clib(c)
    if tags or c.get("buildtags"):
        cmd += ["-tags", tags or c["buildtags"]]
    if c.get("overlay"):
        rep = {}
        src = os.path.join(ROOT, "overlay", c["overlay"])
        for f in sorted(os.listdir(src)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, c["pkg"], "zz_verif_" + f)] = os.path.join(src, f)
        ov = os.path.join(scratch, "overlay.json")
        with open(ov, "w") as fh:
            json.dump({"Replace": rep}, fh)
        # a scratch copy of the modfile, so that go never writes the committed one
        for n in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(ROOT, "overlay", n), os.path.join(scratch, n))
        with open(os.path.join(scratch, "go.mod")) as fh:
            txt = fh.read()
        with open(os.path.join(scratch, "go.mod"), "w") as fh:
            fh.write(txt.replace("@HARNESS@", HARNESS))
        cmd += ["-mod=mod", "-modfile", os.path.join(scratch, "go.mod"),
                "-overlay", ov, "./" + c["pkg"]]
        cwd = REPO
    else:
        cmd += ["-mod=readonly", "./" + c["pkg"]]
        cwd = HARNESS
    p = subprocess.run(cmd, cwd=cwd, env=goenv(c), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die("the check of %s does not build" % pid)
    bins = {}
    for name, pkg in () if tags else c.get("bins", {}).items():
        b = os.path.join(scratch, name)
        if pkg.startswith("harness:"):
            bcmd, bcwd = ["go", "build", "-buildvcs=false", "-mod=readonly", "-o", b, pkg[8:]], HARNESS
        else:
            # a copy of /repo's own module files keeps go from touching them
            m = os.path.join(scratch, "repo.mod")
            shutil.copy(os.path.join(REPO, "go.mod"), m)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "repo.sum"))
            bcmd, bcwd = ["go", "build", "-buildvcs=false", "-mod=mod", "-modfile", m, "-o", b, "-tags", c.get("buildtags", ""), pkg], REPO
        p = subprocess.run(bcmd, cwd=bcwd, env=goenv(c), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            print(p.stdout[-6000:])
            die("%s does not build" % pkg)
        bins[name] = b
    return out, bins


def run_binary(pid, binary, bins, scratch, tier, seed, extra=None):
    c = CHECKS[pid]
    env = goenv()
    env.update(VERIF_TIER=tier, VERIF_SEED=str(seed),
               VK_OUT=os.path.join(scratch, "report.json"),
               TMPDIR=os.path.join(scratch, "tmp"))
    env["VK_SCRATCH"] = os.path.join(scratch, "tmp")
    os.makedirs(env["TMPDIR"], exist_ok=True)
    env["HOME"] = env["TMPDIR"]
    for n, b in bins.items():
        env["VK_BIN_" + n.upper()] = b
    env.update(extra or {})
    if c.get("unpriv") and os.geteuid() == 0:
        for d, ds, fs in os.walk(scratch):
            for n in [d] + [os.path.join(d, f) for f in fs]:
                os.chown(n, NOBODY, NOBODY)
    cmd = [binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "0", "-test.v"]
    log = os.path.join(scratch, "out.log")
    t0 = time.time()
    with open(log, "wb") as fh:  # opened as root, written by the child
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=fh, stderr=subprocess.STDOUT,
                             start_new_session=True,
                             preexec_fn=lambda: confine(c))
        try:
            rc = p.wait(LIMIT[tier])
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    with open(log, errors="replace") as fh:
        text = fh.read()
    return rc, text, time.time() - t0


NOBODY = 65534


def confine(c):
    """Runs in the child. For checks whose property bounds memory, allocating
    without bound ends the process at a fixed size, not at the machine's. Checks
    of code that removes files run as a user who owns nothing but the scratch
    directory."""
    if c.get("oom"):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    if c.get("unpriv") and os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


def crashed(text, oom=False):
    """The process died of the code under test, not of the machine."""
    if "out of memory" in text or "cannot allocate memory" in text:
        return oom
    return bool(re.search(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|runtime: goroutine stack exceeds)", text, re.M))


def failing_sub(text, pid):
    m = re.findall(r"^\s*--- FAIL: Test%s/(\S+)" % pid, text, re.M)
    if m:
        return m[0]
    m = re.findall(r"^=== RUN\s+Test%s/(\S+)" % pid, text, re.M)
    return m[-1] if m else ""


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        return setup()
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        die("usage: check.py ID; known: " + " ".join(sorted(CHECKS)))
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    os.chmod(scratch, 0o755)
    try:
        sys.exit(check(pid, tier, seed, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, tier, seed, scratch):
    """Runs the check once per build variant; the evidence covers all of them."""
    t0 = time.time()
    total = None
    bins = None
    for tags in [""] + CHECKS[pid].get("tags", []):
        sub = os.path.join(scratch, tags or "main")
        os.mkdir(sub)
        os.chmod(sub, 0o755)
        binary, b = build(pid, sub, tags)
        bins = bins or b
        rc, rep = check1(pid, tier, seed, sub, binary, bins, tags)
        if rep and tags:
            for s in rep["subs"]:
                s["name"] = tags + "/" + s["name"]
        if rep and total:
            total["subs"] += rep["subs"]
            total["known"] = (total.get("known") or []) + (rep.get("known") or [])
        else:
            total = total or rep
        if rc != 0:
            break
    if total:
        write_evidence(pid, tier, seed, total, time.time() - t0,
                       0 if rc == 0 else max(1, sum(1 for s in total["subs"] if s["failed"])))
    if rc == 0:
        for s in total["subs"]:
            print("%-26s evaluations=%d distinct_nontrivial=%d" % (s["name"], s["evaluations"], s["distinct_nontrivial"]))
    for k in (total or {}).get("known") or []:
        print(k)
    if rc == 0:
        print("OK property=%s tier=%s seed=%d wall=%.1fs" % (pid, tier, seed, time.time() - t0))
    else:
        print("VIOLATION property=%s replay=%s" % (pid, rc))
    return 0 if rc == 0 else 1


def check1(pid, tier, seed, scratch, binary, bins, tags):
    """One variant: 0 or the path of the replay file, and the report."""
    c = CHECKS[pid]
    rc, text, _ = run_binary(pid, binary, bins, scratch, tier, seed)
    rep = None
    try:
        with open(os.path.join(scratch, "report.json")) as fh:
            rep = json.load(fh)
    except (OSError, ValueError):
        pass
    if rc is None:
        print(text[-4000:])
        die("%s ran out of time: no answer" % pid)
    race = "WARNING: DATA RACE" in text
    if rc == 0 and not race:
        if not rep:
            die("%s wrote no report" % pid)
        return 0, rep
    if "HARNESS-ERROR" in text:
        print(text[-4000:])
        die("the harness of %s failed" % pid)
    failed = re.search(r"^\s*--- FAIL: ", text, re.M)
    if not failed and not race and not crashed(text, c.get("oom")):
        print(text[-4000:])
        die("%s ended with status %s and no verdict" % (pid, rc))
    # a violation: keep what reproduces it
    sub = failing_sub(text, pid)
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, "%s-%s-seed%d.json" % (pid, tier, seed))
    failfile = None
    base = os.path.join(scratch, "testdata", "rapid")
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if f.endswith(".fail") and (("Test%s_%s" % (pid, sub)) in d or not sub or failfile is None):
                with open(os.path.join(d, f), errors="replace") as fh:
                    failfile = fh.read()
    with open(rpath, "w") as fh:
        json.dump({"property": pid, "tier": tier, "seed": seed, "sub": sub, "tags": tags,
                   "rapid_failfile": failfile, "output": text[-20000:]}, fh, indent=1)
    print(text[-6000:])
    return rpath, rep


def write_evidence(pid, tier, seed, rep, wall, violations):
    subs = rep["subs"]
    samples = []
    for s in subs:
        for x in s.get("samples") or []:
            samples.append("%s: %s" % (s["name"], x))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
            "rule": rep["rule"],
            "samples": samples,
            "sub_checks": [{k: s[k] for k in ("name", "evaluations", "nontrivial", "distinct_nontrivial", "classes", "failed", "seconds") if k in s} for s in subs],
        },
        "assumptions": rep.get("assumptions") or [],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    pid = r["property"]
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        _, bins = build(pid, scratch)
        binary = build(pid, scratch, r.get("tags", ""))[0]
        extra = {}
        if r.get("sub"):
            extra["VK_ONLY"] = r["sub"]
        if r.get("rapid_failfile"):
            f = os.path.join(scratch, "case.fail")
            with open(f, "w") as fh:
                fh.write(r["rapid_failfile"])
            extra["VK_FAILFILE"] = f
        rc, text, _ = run_binary(pid, binary, bins, scratch, r["tier"], r["seed"], extra)
        print(text)
        sys.exit(0 if rc == 0 else 1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    seen = set()
    for pid in sorted(CHECKS):
        c = CHECKS[pid]
        k = (c["pkg"], bool(c.get("race")), c.get("overlay"), tuple(c.get("bins", {})), tuple(c.get("tags", [])))
        if k in seen:
            continue
        seen.add(k)
        scratch = tempfile.mkdtemp(prefix="verif_setup_")
        try:
            for tags in [""] + c.get("tags", []):
                build(pid, scratch, tags)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    print("setup done: %d packages" % len(seen))
    return 0


if __name__ == "__main__":
    sys.exit(main())
