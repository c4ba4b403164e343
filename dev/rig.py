#!/usr/bin/env python3
"""Development rig: applies edits from cases*.py to scratch copies of /repo and runs the analyzer.

usage: rig.py [-t] [-a] [filter...]    -t also runs the repository's tests, -a runs all checks on bugs too
A case: (id, expected property or "OK", [(file, old, new), ...]).
OK cases keep the behaviour: every check must stay quiet. Other cases must be reported by the expected property.
"""
import sys, os, subprocess, tempfile, shutil, glob, concurrent.futures as cf
AN = os.environ.get("AN", "/tmp/an")
args = [a for a in sys.argv[1:] if not a.startswith("-")]
tests = "-t" in sys.argv
allc = "-a" in sys.argv
CASES = []
def case(id, prop, *edits):
    CASES.append((id, prop, edits))
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "cases*.py"))):
    exec(open(f).read())
ids = [c[0] for c in CASES]
assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
env = dict(os.environ, GOGC='400', GOMAXPROCS='2')
def run(case):
    id, prop, edits = case
    d = tempfile.mkdtemp(prefix="rig", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return id, prop, "APPLY", "edit not found in %s: %r" % (f, old[:60])
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        b = subprocess.run("source /opt/vp/env.sh; cd %s && gofmt -l . ; go list -export -trimpath -f {{.Name}} ./... >/dev/null" % d, shell=True, executable="/bin/bash", capture_output=True, text=True)
        if b.returncode != 0:
            return id, prop, "BUILD", (b.stdout + b.stderr)[:600]
        tmsg = ""
        if tests:
            t = subprocess.run("source /opt/vp/env.sh; cd %s && go test -trimpath ./... 2>&1 | grep -v 'no test files' | grep -v '^ok'" % d, shell=True, executable="/bin/bash", capture_output=True, text=True)
            if "FAIL" in t.stdout:
                tmsg = " TESTFAIL " + " ".join(l for l in t.stdout.splitlines() if l.startswith("--- FAIL"))
        e = dict(env, BBN_ROOT=d, BBN_OUT=os.path.join(d, "ev"))
        checks = subprocess.run([AN, "list"], capture_output=True, text=True).stdout.split()
        if os.environ.get("CHECKS") and prop == "OK":
            checks = os.environ["CHECKS"].split(",")
        if prop != "OK" and not allc:
            checks = prop.split("/")
        hits, msgs = [], []
        for c in checks:
            r = subprocess.run([AN, "check", c], env=e, capture_output=True, text=True, cwd=d)
            if r.returncode == 1:
                hits.append(c)
                msgs.append("\n".join(r.stdout.splitlines()[1:6]))
            elif r.returncode != 0:
                hits.append(c + "!")
                msgs.append(r.stdout[-500:] + r.stderr[-500:])
            und = [l for l in r.stdout.splitlines() if l.startswith("UNDECIDED")]
            if und:
                msgs.append(c + " " + und[0][:200])
        if prop == "OK":
            return id, prop, ("quiet" if not hits else "FALSE-ALARM " + ",".join(hits)) + tmsg, "\n".join(msgs) if hits or os.environ.get("V") else "; ".join(m for m in msgs)[:300]
        want = [p for p in prop.split("/") if p in hits]
        return id, prop, ("caught " + ",".join(hits) if want else "MISSED (others: %s)" % ",".join(hits)) + tmsg, "\n".join(msgs) if os.environ.get("V") else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)
sel = [c for c in CASES if not args or any(a in c[0] or a in c[1].split("/") for a in args)]
bad = 0
with cf.ThreadPoolExecutor(8) as ex:
    for id, prop, res, msg in ex.map(run, sel):
        flag = "" if res.startswith(("caught", "quiet")) and "TESTFAIL" not in res else "  <<<<"
        bad += bool(flag)
        print("%-34s %-8s %s%s" % (id, prop, res, flag))
        if msg and (flag or os.environ.get("V")):
            print("    " + msg.replace("\n", "\n    "))
print(len(sel), "cases,", bad, "to look at")
