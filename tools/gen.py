#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note))

exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"]},
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for p in sorted(P, key=lambda p: p["id"]):
    if os.path.isfile(os.path.join(here, "harness", p["id"], "main.go")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash run.sh %s quick" % p["id"],
            "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "the check is not built yet")})

json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "none: nothing in /repo is instrumented; the harnesses (and, for the schedule checks, an instrumented copy of the current sources) enter the build through go's -overlay",
        "enable": "go build -overlay <generated at check time by tools/prepare.py>",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check is an exhaustive, bounded exploration of the real code by the explorer in mc/. Modules github.com/indigo-web/utils and github.com/indigo-web/chunkedbody cannot be fetched here; stubs/ has stand-ins, with which the repository's whole own test suite passes.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
