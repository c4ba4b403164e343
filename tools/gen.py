#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []  # claimed
N = []  # not applicable


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    N.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

lines = []
for p in P + N:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    }, ensure_ascii=False))
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")

NOTE = "Decided from /repo's current source on every run, without executing it; all repository calls are inlined from each entry point. Sound up to the listed models of library functions and the go/ssa front end; constructs the engine cannot interpret are listed as undecided in the evidence. "
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash run.sh " + p["id"],
        "thorough_cmd": "bash run.sh " + p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": NOTE + p["note"],
    } for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in N],
    "notes": "Static analysis only. analyzer/ is a Go program (vendored x/tools) that type-checks /repo, builds SSA, and flattens every entry point. No hooks in /repo. properties.jsonl and this file are generated by tools/gen.py from tools/props.py.",
}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
print(len(P), "claimed,", len(N), "not applicable")
