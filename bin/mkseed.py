#!/usr/bin/env python3
"""mkseed.py <dir of spec files>: helper used while writing planted changes: spec = python file defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust source)"""
import os, subprocess, sys, shutil, tempfile, json
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
rustc --edition 2021 --crate-type rlib --crate-name another_rxrust --cap-lints allow src/lib.rs --out-dir "$D" || exit 3
rustc --edition 2021 --cap-lints allow --extern another_rxrust="$D/libanother_rxrust.rlib" "$H/demo.rs" -o "$D/demo" || exit 3
timeout 60 "$D/demo"
'''
def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d = "/verif/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run(f"git -C /repo archive HEAD src | tar -x -C {w}", shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=w, check=True)
    for f, a, b in g["EDITS"]:
        s = open(f"{w}/{f}").read()
        n = s.count(a)
        if n != 1:
            print(g["ID"], f, "matches", n); sys.exit(1)
        open(f"{w}/{f}", "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout)
    shutil.rmtree(w)
    open(d + "/demo.rs", "w").write(g["DEMO"])
    open(d + "/demo.sh", "w").write(DEMO_SH)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
for s in sys.argv[1:]:
    make(s)
