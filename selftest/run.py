#!/usr/bin/env python3
"""run.py [names..]: apply behaviour-preserving edits to a scratch copy (all that touch disjoint files together), build it and run every scenario; prints what the analyser says. With -t also the repository's tests."""
import sys, os, subprocess, tempfile, shutil, json, glob, collections
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from refactors import R
args = [a for a in sys.argv[1:] if not a.startswith("-")]
names = args or list(R)
groups = []
for n in names:
    files = {f for f, _, _ in R[n]}
    for g in groups:
        if not (files & g[1]):
            g[0].append(n); g[1].update(files); break
    else:
        groups.append(([n], set(files)))
for g, _ in groups:
    d = tempfile.mkdtemp(prefix="rf.", dir="/tmp")
    subprocess.run(f"cp -a /repo {d}/repo", shell=True, check=True)
    bad = False
    for n in g:
        for f, a, b in R[n]:
            p = f"{d}/repo/src/{f}"; s = open(p).read()
            if s.count(a) < 1:
                print("NO MATCH", n, f, s.count(a), a[:60]); bad = True; continue
            open(p, "w").write(s.replace(a, b, 1))
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "another_rxrust", "--cap-lints", "allow", "--emit=metadata", "src/lib.rs", "--out-dir", d], cwd=d + "/repo", capture_output=True, text=True)
    print("==", " ".join(g), "builds" if r.returncode == 0 else "DOES NOT BUILD\n" + r.stderr[-3000:], flush=True)
    if r.returncode == 0 and not bad:
        if "-t" in sys.argv:
            t = subprocess.run("cargo test --offline --target-dir ../t -- --test-threads=16 2>&1 | grep -E '^test result|FAILED' | head -5", shell=True, cwd=d + "/repo", capture_output=True, text=True)
            print(t.stdout, end="")
        sc = os.environ.get("SC", "sc_*")
        o = subprocess.run(["bash", "/tmp/rx/r.sh", sc], env=dict(os.environ, REPO=d + "/repo", SHOW="sum.py", EL="500"), capture_output=True, text=True)
        for l in o.stdout.splitlines():
            if "sc_reentf_reduce" in l or "sc_reentf_scan" in l: continue
            print("   ", l[:300])
        sys.stdout.flush()
    shutil.rmtree(d)
