#!/usr/bin/env python3
"""usage: run.py FRACTION SEED OUT file...  Lists mutants that build, pass the tests and are reported by no check."""
import sys, os, json, random, subprocess, shutil, queue, threading
frac, seed, out, files = float(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
AN = os.environ.get("AN", "/tmp/an"); W = int(os.environ.get("W", "8"))
ms = [json.loads(l) for l in subprocess.run(["/tmp/mutate", "/repo"] + files, capture_output=True, text=True).stdout.splitlines()]
random.seed(seed); random.shuffle(ms); ms = ms[:int(len(ms) * frac)]
q = queue.Queue()
for m in ms: q.put(m)
lock = threading.Lock(); f = open(out, "w"); n = {"build": 0, "tests": 0, "caught": 0, "missed": 0}
def sh(c, d, t=120, e=None):
    try:
        return subprocess.run("source /opt/vp/env.sh; " + c, shell=True, executable="/bin/bash", cwd=d, capture_output=True, text=True, timeout=t, env=e)
    except subprocess.TimeoutExpired:
        return None
def work(i):
    d = "/tmp/mut%s_%d" % (os.path.basename(out), i)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
    env = dict(os.environ, GOGC="400", GOMAXPROCS="2", BBN_ROOT=d, BBN_OUT=d + "_ev")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, m["file"]); src = open(p, "rb").read()
        try:
            open(p, "wb").write(src[:m["from"]] + m["new"].encode() + src[m["to"]:])
            k = "build"; hits = ""
            r = sh("go build -trimpath ./...", d)
            if r and r.returncode == 0:
                k = "tests"
                r = sh("timeout 60 go test -timeout 20s -trimpath ./...", d, 90)
                if r and r.returncode == 0:
                    r = sh("timeout 200 %s all" % AN, d, 220, env)
                    o = r.stdout if r else "TIMEOUT"
                    hs = sorted({l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("VIOLATION")})
                    k = "caught" if hs else "missed"; hits = ",".join(hs)
            line = src[:m["from"]].count(b"\n")
            with lock:
                n[k] += 1
                if k in ("caught", "missed"):
                    f.write("%s %s:%d %s [%s] %s => %s | %s\n" % (k, m["file"], m["line"], m["fn"], m["what"], src[m["from"]:m["to"]].decode()[:60].replace("\n", " "), m["new"][:60].replace("\n", " "), hits or src.decode().splitlines()[line].strip())); f.flush()
        finally:
            open(p, "wb").write(src)
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + "_ev", ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
f.write(json.dumps(n) + "\n"); f.close()
