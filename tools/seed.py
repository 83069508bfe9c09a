#!/usr/local/bin/python3
"""seed.py verify ID...: confirms planted bugs: the patch applies, changes lines of
the original repository, builds, passes the stable tests, fails its demonstration,
which passes without it; then runs the property's check against it. /repo must be
clean, and is left so."""
import json, os, subprocess, sys
REPO, ROOT = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")

def sh(cmd, cwd=REPO, timeout=900):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def original(patch):
    """whether every removed line is the base commit's"""
    base = sh("git rev-list --max-parents=0 HEAD")[1].split()[0]
    path, line, out, removed = None, 0, [], 0
    for l in open(patch):
        if l.startswith("--- a/"):
            path = l[6:].strip()
        elif l.startswith("@@"):
            line = int(l.split()[1][1:].split(",")[0])
        elif path and l.startswith("-"):
            removed += 1
            b = sh(["git", "blame", "-l", "-s", "--root", "-L%d,%d" % (line, line), "HEAD", "--", path])[1]
            if b.split()[0].lstrip("^") != base:
                out.append(path + ":" + str(line))
            line += 1
        elif path and l.startswith(" "):
            line += 1
    return removed, out

def verify(i, check=True):
    d = os.path.join(SEEDED, i)
    patch, meta = os.path.join(d, "patch.diff"), json.load(open(os.path.join(d, "meta.json")))
    assert sh("git status --porcelain")[1] == "", "repo not clean"
    problems = []
    n, added = original(patch)
    if n == 0 or added:
        problems.append("removes %d lines; not original: %s" % (n, added))
    rc, o = sh(["bash", os.path.join(d, "demo.sh")])
    if rc != 0:
        problems.append("demo fails clean: " + o[-1500:])
    rc, o = sh(["git", "apply", patch])
    if rc != 0:
        print(i, "does not apply:", o)
        return
    try:
        rc, o = sh(["bash", "/opt/vp/build.sh"])
        if rc != 0:
            problems.append("build: " + o[-800:])
        sh(["bash", "/opt/vp/test.sh", "/tmp/seed.json"])
        rc, o = sh(["python3", "/tmp/cmp.py", "/tmp/seed.json"]) if os.path.exists("/tmp/cmp.py") else (0, "missing stable: [] ")
        if "missing stable: []" not in o:
            problems.append("tests: " + o)
        rc, demo = sh(["bash", os.path.join(d, "demo.sh")])
        if rc == 0:
            problems.append("demo passes with the bug")
        rc, o = (0, "")
        if check:
            rc, o = sh(["python3", "check.py", meta["property"]], cwd=ROOT)
    finally:
        sh(["git", "checkout", "--", "."])
    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    caught = rc == 1 and any("property=" + meta["property"] in l for l in v)
    print("%-28s %s %s %s" % (i, meta["property"], "CAUGHT" if caught else "MISSED rc=%d" % rc, "; ".join(problems) or "ok"), flush=True)
    if problems:
        print("   demo:", demo[-600:])
    if not caught:
        print(o[-800:])

if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(SEEDED))
    for i in ids:
        verify(i, "--nocheck" not in sys.argv)
