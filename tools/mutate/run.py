#!/usr/local/bin/python3
"""Mutation campaign, outside /repo: run.py OUT.jsonl WORKERS CAP FILE...
Each worker has copies of /repo and /verif under /tmp/mut; every mutant that
builds is put before the checks mapped to its file, cheapest first, until one
reports it. Survivors are then put before the repository's tests."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time, signal
TEV = ["C24", "C26", "C28", "C25", "C29", "C31", "C27", "C30", "C33", "C32", "C34"]
MAP = [
    ("hex.go", ["C01", "C02", "C15", "C09"]), ("seth.go", ["C01", "C02", "C15", "C03", "C04", "C09", "C17", "C19", "C12"]),
    ("signature.go", ["C07", "C01", "C06", "C05"]), ("transaction.go", ["C05", "C03", "C18"]),
    ("send.go", ["C09", "C10", "C11", "C15", "C18"]), ("sender.go", ["C18", "C19"]), ("filter.go", ["C15", "C16", "C32"]),
    ("client.go", ["C15", "C12", "C14", "C13", "C47"]), ("dial.go", ["C14", "C47", "C45"]), ("personal.go", ["C15"]),
    ("hsm.go", ["C44", "C46"]), ("keyfile.go", ["C08", "C44"]), ("compile.go", ["C20", "C21", "C22", "C23"]), ("abi.go", ["C23", "C41"]),
    ("bindgen/main.go", ["C41"]), ("cc/currency.go", ["C36", "C35", "C37"]), ("ec/field.go", ["C40", "C39"]), ("ec/", ["C39", "C40"]),
    ("keccak/", ["C38"]), ("tevm/tree.go", ["C24", "C30"]), ("tevm/evm.go", ["C26", "C28", "C25", "C29", "C27", "C30", "C33", "C31", "C32"]),
    ("tevm/transport.go", ["C31", "C29", "C34", "C32", "C33"]),
    ("tevm/erc20/", ["C48"]), ("tevm/tevmd/", ["C49"]),
    ("cmd/eth/keys.go", ["C44", "C46"]), ("cmd/eth/hsm.go", ["C44", "C46"]),
    ("cmd/eth/call.go", ["C42"]), ("cmd/eth/read.go", ["C45", "C42"]), ("cmd/eth/jumptab.go", ["C43"]),
    ("cmd/eth/balance.go", ["C45"]), ("cmd/eth/block.go", ["C45"]), ("cmd/eth/code.go", ["C45"]), ("cmd/eth/post.go", ["C45"]),
    ("cmd/eth/client.go", ["C45", "C42"]), ("cmd/eth/main.go", ["C45", "C44", "C42", "C43"]), ("cmd/eth/", ["C44"]),
    ("yubihsm.go", ["C46"]), ("yubihsm/", ["C46"]), ("seth_gen.go", ["C04"]), ("compile_gen.go", ["C04"]),
]
def checks(f):
    for k, v in MAP:
        if f == k or (k.endswith("/") and f.startswith(k)): return v
    return []
BASE = "/tmp/mut"
GO = "/opt/veriftools/go1.27.3/bin/go"
def env():
    e = dict(os.environ); e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="", GOCACHE=BASE + "/gocache",
        PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], VERIF_TIER="quick", VERIF_SEED="1")
    return e
def setup(n):
    os.makedirs(BASE, exist_ok=True)
    if not os.path.isdir(BASE + "/gocache"): subprocess.run(["cp", "-a", "/root/.cache/go-build", BASE + "/gocache"], check=True)
    for i in range(n):
        d = "%s/w%d" % (BASE, i)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "clone", "-q", "/verif", d + "/verif"], check=True)
        subprocess.run(["rsync", "-a", "--exclude=.git", "--exclude=seeded", "--exclude=replays", "/verif/", d + "/verif/"] if shutil.which("rsync") else ["true"])
        for f in ("check.py", "harness/go.mod", "overlay/go.mod"):
            p = d + "/verif/" + f; s = open(p).read()
            s = s.replace('"/repo"', '"%s/repo"' % d).replace("=> /repo", "=> %s/repo" % d).replace('GOCACHE="/root/.cache/go-build"', 'GOCACHE="%s/gocache"' % BASE)
            open(p, "w").write(s)
def run(cmd, cwd, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try: out, _ = p.communicate(timeout=t); return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return None, ""
lock = threading.Lock()
def worker(i, q, out):
    d = "%s/w%d" % (BASE, i)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        path = d + "/repo/" + m["file"]
        src = open("/repo/" + m["file"], "rb").read()
        open(path, "wb").write(src[:m["from"]] + m["repl"].encode() + src[m["to"]:])
        t0 = time.time(); res = {}; verdict = "survived"
        rc, o = (0, "") if "yubihsm" in m["file"] else run([GO, "build", "-o", "/dev/null", "./" + os.path.dirname(m["file"])], d + "/repo", 300)
        if rc != 0: verdict = "nobuild"
        else:
            for c in checks(m["file"]):
                for att in range(2):
                    rc, o = run([sys.executable, "check.py", c], d + "/verif", 420)
                    if rc == 2 and "does not build" in o: continue
                    break
                res[c] = rc
                if rc == 1: verdict = "caught:" + c; break
                if rc == 2 and "yubihsm" in m["file"]: verdict = "nobuild"; break
            if verdict == "survived":
                if any(v == 2 for v in res.values()): verdict = "harness"
                if any(v is None for v in res.values()): verdict = "timeout"
                rc, o = run([GO, "test", "./" + os.path.dirname(m["file"])], d + "/repo", 120)
                if rc != 0: res["tests"] = rc
        open(path, "wb").write(src)
        m.update(verdict=verdict, res=res, s=round(time.time() - t0, 1))
        with lock:
            out.write(json.dumps(m) + "\n"); out.flush()
def janitor(stop):
    # build results of past mutants
    while not stop.wait(600):
        old = time.time() - 1800; start = os.path.getmtime(BASE + "/start")
        for d, _, fs in os.walk(BASE + "/gocache"):
            for f in fs:
                p = os.path.join(d, f)
                try:
                    if start < os.path.getmtime(p) < old: os.remove(p)
                except OSError: pass
        for f in os.listdir("/tmp"):
            p = "/tmp/" + f
            if f.startswith("verif_C") and os.path.getmtime(p) < old: shutil.rmtree(p, ignore_errors=True)
def main():
    outp, n, cap = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    setup(n); open(BASE + "/start", "w").close()
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            x = json.loads(l); done.add((x["file"], x["from"], x["to"], x["repl"]))
    jobs = []
    for f in sys.argv[4:]:
        f, _, c = f.partition(":")
        ms = [json.loads(l) for l in subprocess.run(["/tmp/mutate", f], cwd="/repo", capture_output=True, text=True, check=True).stdout.splitlines()]
        random.Random(f).shuffle(ms)
        jobs += [m for m in ms[:int(c or cap)] if (m["file"], m["from"], m["to"], m["repl"]) not in done]
    random.Random(5).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    q = queue.Queue()
    for j in jobs: q.put(j)
    stop = threading.Event(); threading.Thread(target=janitor, args=(stop,), daemon=True).start()
    with open(outp, "a") as out:
        ts = [threading.Thread(target=worker, args=(i, q, out)) for i in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]
    print("done")
main()
