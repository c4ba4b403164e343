#!/usr/bin/env python3
"""Creates and confirms /verif/seeded/<id>/ from seeds*.py.  usage: mkseed.py [-f] [id...]"""
import sys, os, subprocess, tempfile, shutil, json, glob
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SEEDS = []
def seed(id, prop, pkg, edits, demo, needs, breaks):
    SEEDS.append((id, prop, pkg, edits, demo, needs, breaks))
for f in sorted(glob.glob(os.path.join(HERE, "seeds*.py"))):
    exec(open(f).read())
DEMO = '''#!/bin/bash
# run in the repository root: exit 0 if the behaviour is right
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
r=$(pwd)
echo "{\\"Replace\\":{\\"$r/%(pkg)szz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$w/overlay.json"
go test -vet=off -overlay "$w/overlay.json" -count=1 -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd):
    return subprocess.run(". /opt/vp/env.sh; " + cmd, shell=True, executable="/bin/bash", cwd=cwd, capture_output=True, text=True)
args = [a for a in sys.argv[1:] if not a.startswith("-")]
stable = json.load(open("/opt/vp/BASELINE.json"))
for id, prop, pkg, edits, demo, needs, breaks in SEEDS:
    if args and id not in args: continue
    if not args and os.path.exists(os.path.join(OUT, id)) and "-f" not in sys.argv: continue
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp"); dd = tempfile.mkdtemp(prefix="sdemo", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (d, d), shell=True, check=True)
        p = pkg + "/" if pkg else ""
        open(dd + "/demo_test.go", "w").write(demo.lstrip())
        open(dd + "/demo.sh", "w").write(DEMO % dict(pkg=p))
        r = sh("bash %s/demo.sh" % dd, d)
        if r.returncode != 0:
            print(id, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-1500:], r.stderr[-800:]); continue
        ok = True
        for f, old, new in edits:
            q = os.path.join(d, f); s = open(q).read()
            if old not in s: print(id, "EDIT NOT FOUND", f, repr(old[:50])); ok = False; break
            open(q, "w").write(s.replace(old, new, 1))
        if not ok: continue
        g = sh("gofmt -l $(git diff --name-only)", d)
        if g.stdout.strip(): print(id, "gofmt", g.stdout)
        b = sh("go build ./... && go vet ./...", d)
        if b.returncode: print(id, "BUILD", b.stdout, b.stderr); continue
        t = sh("go test -count=1 ./... 2>&1", d)
        if "FAIL" in t.stdout: print(id, "TESTS FAIL", "\n".join(l for l in t.stdout.splitlines() if "FAIL" in l)); continue
        r = sh("bash %s/demo.sh" % dd, d)
        if r.returncode == 0: print(id, "DEMO PASSES WITH PATCH"); continue
        if "build failed" in r.stdout or "panic: test timed out" in r.stdout: print(id, "DEMO BROKEN", r.stdout); continue
        o = os.path.join(OUT, id); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        subprocess.run("git diff > %s/patch.diff" % o, shell=True, cwd=d, check=True)
        shutil.copy(dd + "/demo_test.go", o); shutil.copy(dd + "/demo.sh", o)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
        print(id, prop, "confirmed")
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(dd, ignore_errors=True)
