#!/usr/bin/env python3
"""Helper to plant a bug: seed(id, prop, pkg, edits, test, needs, breaks, leaf) makes the change in a scratch
copy of /repo, confirms that it builds, passes the tests and that the demonstration tells the trees apart,
and writes /verif/seeded/<id>. Used by hand, never by a check."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = "/verif"
REPO = "/repo"

DEMO = '''#!/bin/bash
# runs demo_test.go.txt inside of the package %(pkg)s
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
cp "$repo/go.mod" "$repo/go.sum" "$t/"
%(stubs)sprintf '{"Replace": {"%%s": "%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$t/overlay.json"
cd "$repo" && go test -vet=off -count=1 -timeout 120s -modfile="$t/go.mod" -overlay="$t/overlay.json" -run '^TestZZDemo$' "./%(pkg)s"
'''
STUBS = '''printf '\\nreplace github.com/indigo-web/utils => %s/stubs/utils\\nreplace github.com/indigo-web/chunkedbody => %s/stubs/chunkedbody\\n' "$here" "$here" >> "$t/go.mod"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def seed(id, prop, pkg, edits, test, needs, breaks, leaf=False):
    scratch = tempfile.mkdtemp(prefix="seed.")
    wt = os.path.join(scratch, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", REPO, wt])
        for path, old, new in edits:
            p = os.path.join(wt, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "edit matches", s.count(old), "times:", old[:60]); return False
            open(p, "w").write(s.replace(old, new))
        files = " ".join(sorted({e[0] for e in edits}))
        fmt = sh("gofmt -l " + files, wt).stdout.strip()
        if fmt:
            print(id, "not gofmt-ed", fmt)
        patch = sh("git diff", wt).stdout
        out = os.path.join(scratch, "out")
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "stubs": "" if leaf else STUBS})
        open(out + "/demo_test.go.txt", "w").write(test)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        if not leaf:
            shutil.copytree(VERIF + "/stubs", out + "/stubs")
        clean = sh("bash %s/demo.sh" % out, REPO)
        if clean.returncode != 0:
            print(id, "demo fails on the unchanged tree:\n", clean.stdout[-3000:], clean.stderr[-2000:]); return False
        dirty = sh("bash %s/demo.sh" % out, wt)
        if dirty.returncode == 0:
            print(id, "demo passes with the change"); return False
        if "FAIL" not in dirty.stdout or "build failed" in dirty.stdout:
            print(id, "demo does not fail properly:\n", dirty.stdout[-3000:], dirty.stderr[-2000:]); return False
        # the whole suite with the stand-ins
        sh("python3 %s/tools/prepare.py %s %s C10 %s" % (VERIF, VERIF, wt, scratch), scratch)
        suite = sh("GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go test -timeout 100s -modfile %s/go.mod ./..." % scratch, wt)
        if suite.returncode != 0:
            print(id, "the suite fails with the change:\n", "\n".join(l for l in suite.stdout.split("\n") if "no test files" not in l and not l.startswith("ok"))[-3000:]); return False
        dst = os.path.join(VERIF, "seeded", id)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(id, "kept")
        return True
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
