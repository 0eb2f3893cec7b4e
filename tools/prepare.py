#!/usr/bin/env python3
"""Writes the go.mod with the stand-in modules and the build overlay for one harness."""
import json, os, shutil, sys

here, repo, prop, work = sys.argv[1:5]

mod = open(os.path.join(repo, "go.mod")).read()
mod += "\nreplace github.com/indigo-web/utils => %s/stubs/utils\n" % here
mod += "\nreplace github.com/indigo-web/chunkedbody => %s/stubs/chunkedbody\n" % here
open(os.path.join(work, "go.mod"), "w").write(mod)
shutil.copy(os.path.join(repo, "go.sum"), os.path.join(work, "go.sum"))

replace = {}

def add(src, target):
    for name in sorted(os.listdir(src)):
        if name.endswith(".go"):
            replace[os.path.join(repo, target, name)] = os.path.join(src, name)

for lib in ("mc", "srv", "vsched", "vswitch", "vnet"):
    src = os.path.join(here, lib)
    if os.path.isdir(src):
        add(src, os.path.join("internal", "verifmc", lib))

harness = os.path.join(here, "harness", prop)
target = os.path.join("internal", "verifmc", prop.lower())
tfile = os.path.join(harness, "TARGET")
if os.path.exists(tfile):
    target = open(tfile).read().strip()
add(harness, target)

json.dump({"Replace": replace}, open(os.path.join(work, "overlay.json"), "w"), indent=1)
open(os.path.join(work, "pkg"), "w").write(target)
