#!/usr/bin/env python3
"""mutate.py MUTS.jsonl OUT.jsonl [--base BASE_RES_DIR]: every mutation of MUTS (from mutgen) on a scratch copy; type-checks it, runs the scenarios that
reach the mutated file, records which properties raise.   BASE_RES_DIR: part*.jsonl of a clean full run (for reached functions and times)."""
import sys, os, json, glob, subprocess, shutil, fnmatch, collections, threading, queue, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import check, plan
muts = [json.loads(l) for l in open(sys.argv[1])]
out = sys.argv[2]
base = sys.argv[sys.argv.index("--base") + 1] if "--base" in sys.argv else "/tmp/rx/base"
N = int(os.environ.get("N", "8"))
WALL = float(os.environ.get("WALL", "60"))   # budget (clean wall) of scenarios per mutant
EACH = float(os.environ.get("EACH", "6"))
B = {}
for f in glob.glob(base + "/part*.jsonl"):
    for l in open(f):
        r = json.loads(l); B[r["scenario"]] = r
allp = sorted({s for p in plan.PLAN.values() for s in p["scenarios"]})
B = {k: v for k, v in B.items() if any(fnmatch.fnmatchcase(k, p) for p in allp)}
known = json.load(open(V + "/known_findings.json"))["findings"]
def key(m): return hashlib.sha1(json.dumps([m["file"], m["op"], m["edits"]]).encode()).hexdigest()[:12]
done = set()
if os.path.exists(out):
    done = {json.loads(l)["key"] for l in open(out)}
exe = os.environ.get("DRV") or check.driver(); env = check.toolchain_env(); lock = threading.Lock()
def apply(src, edits):
    for a, b, new in sorted(edits, reverse=True):
        src = src[:a] + new.encode() + src[b:]
    return src
def sel(file):
    """stages of scenarios: cheap ones first (of every kind), then the rest of those that reach the file"""
    mod = "another_rxrust::" + file[len("src/"):-3].replace("/", "::") + "::"
    c = sorted((r["wall"], s) for s, r in B.items() if any(mod in k for k in r["fns"]))
    kinds = collections.defaultdict(list)
    for w, s in c: kinds[s.split("_")[1]].append((w, s))
    st1, t = [], 0.0
    while any(kinds.values()) and t < WALL:
        for k in list(kinds):
            if kinds[k]:
                w, s = kinds[k].pop(0)
                if w < 8 and t + w < WALL: st1.append(s); t += w
    lim = 60 if sum(w for w, _ in c) < 150 else EACH
    st2 = [s for w, s in c if s not in st1 and w <= lim]
    return [x for x in (st1, st2) if x]
SEL = {}
def one(m, d):
    src = open("/repo/" + m["file"], "rb").read()
    p = f"{d}/{m['file']}"
    new = apply(src, m["edits"])
    open(p, "wb").write(new)
    try:
        r = subprocess.run(["rustc", "+nightly", "--crate-name", "another_rxrust", "--crate-type", "rlib", "--emit=metadata", "--cap-lints", "allow"] + check.FLAGS + [d + "/src/lib.rs", "--out-dir", d], capture_output=True, text=True)
        if r.returncode: return {"r": "nobuild"}
        if m["file"] not in SEL: SEL[m["file"]] = sel(m["file"])
        props, msgs, notes, to, nsc = collections.Counter(), collections.Counter(), collections.Counter(), 0, 0
        if not SEL[m["file"]]: return {"r": "noscen"}
        for sc in SEL[m["file"]]:
            o = d + "/out"; shutil.rmtree(o, ignore_errors=True)
            e = dict(env); e.update(RXSA_OUT=o, RXSA_ONLY=",".join(sc), RXSA_SECS=os.environ.get("SECS", "100"), RXSA_TOTAL="500", RXSA_TIER="0", RXSA_DEPTH="10", RXSA_JOBS="1")
            subprocess.run([exe, V + "/harness/src/lib.rs", "--crate-type", "rlib", "--crate-name", "harness"] + check.FLAGS + ["--extern", f"another_rxrust={d}/libanother_rxrust.rmeta", "-L", d, "--out-dir", d, "--cap-lints", "allow"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if not os.path.exists(o + "/done"): return {"r": "noharness"}
            for f in glob.glob(o + "/part*.jsonl"):
                for l in open(f):
                    try: r = json.loads(l)
                    except ValueError: continue
                    nsc += 1; to += r["timed_out"]
                    for k, c in r["notes"].items(): notes[k] += c
                    for v in r["violations"]:
                        if any(check.is_known(k, r["scenario"], v) for k in known): continue
                        for x in v["props"].split(","):
                            if any(fnmatch.fnmatchcase(r["scenario"], g) for g in plan.PLAN.get(x, {"scenarios": []})["scenarios"]): props[x] += 1
                        msgs[v["msg"][:80]] += 1
            if props: break
        return {"r": "killed" if props else "survived", "props": dict(props), "msgs": dict(msgs.most_common(6)), "notes": dict(notes), "to": to, "nsc": nsc}
    finally:
        open(p, "wb").write(src)
q = queue.Queue()
for m in muts:
    if key(m) not in done: q.put(m)
total = q.qsize(); t0 = time.time(); cnt = collections.Counter()
def work(i):
    d = f"/tmp/mt/w{i}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree("/repo/src", d + "/src"); shutil.copy("/repo/README.md", d)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        t = time.time(); r = one(m, d); r.update(key=key(m), file=m["file"], op=m["op"], line=m["line"], edits=m["edits"], t=round(time.time() - t, 1))
        with lock:
            open(out, "a").write(json.dumps(r) + "\n"); cnt[r["r"]] += 1
            n = sum(cnt.values())
            if n % 50 == 0: print(n, "/", total, dict(cnt), round(time.time() - t0), "s", flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", dict(cnt), round(time.time() - t0), "s")
