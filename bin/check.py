#!/usr/bin/env python3
"""Static check of one property: type-check /repo's current source and the client crate, abstractly interpret the MIR of
the selected clients with rxsa, report violations of the property.   usage: check.py <property> [quick|thorough]"""
import fcntl, glob, json, os, shutil, subprocess, sys, tempfile, time, fnmatch, hashlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RXSA_REPO", "/repo")
FLAGS = ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-C", "debug-assertions=off", "-C", "overflow-checks=on", "--edition", "2021"]
sys.path.insert(0, os.path.join(V, "bin"))
import plan


def sh(cmd, env=None, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **k)


def toolchain_env():
    e = dict(os.environ)
    r = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip().splitlines()[-1]
    e["LD_LIBRARY_PATH"] = r + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
    return e


def driver():
    """the analyser, rebuilt when its source changed"""
    src = sorted(glob.glob(V + "/rxsa/src/*.rs"))
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, "rb").read())
    d = V + "/build"
    os.makedirs(d, exist_ok=True)
    exe = f"{d}/rxsa-{h.hexdigest()[:16]}"
    with open(d + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            r = sh(["rustc", "+nightly", "-O", "--edition", "2021", V + "/rxsa/src/main.rs", "-o", tmp])
            if r.returncode != 0:
                print(r.stdout[-3000:])
                die("the analyser does not build")
            os.rename(tmp, exe)
    return exe


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def analyse(scens, tier, secs, total, depth, keep=None):
    env = toolchain_env()
    exe = driver()
    w = tempfile.mkdtemp(prefix="rxsa-", dir=V + "/build")
    try:
        r = sh(["rustc", "+nightly", "--crate-name", "another_rxrust", "--crate-type", "rlib", "--emit=metadata", "--cap-lints", "allow"]
               + FLAGS + [REPO + "/src/lib.rs", "--out-dir", w])
        if r.returncode != 0:
            print(r.stdout[-3000:])
            die("/repo/src/lib.rs does not type-check")
        e = dict(env)
        e.update(RXSA_OUT=w + "/out", RXSA_ONLY=",".join(scens), RXSA_SECS=str(secs), RXSA_TOTAL=str(total),
                 RXSA_TIER="1" if tier == "thorough" else "0", RXSA_DEPTH=str(depth), RXSA_JOBS=str(min(8, os.cpu_count() or 8)))
        r = sh([exe, V + "/harness/src/lib.rs", "--crate-type", "rlib", "--crate-name", "harness"] + FLAGS
               + ["--extern", f"another_rxrust={w}/libanother_rxrust.rmeta", "-L", w, "--out-dir", w, "--cap-lints", "allow"], env=e)
        if not os.path.exists(w + "/out/done"):
            print(r.stdout[-3000:])
            die("the client crate does not type-check against /repo's public interface")
        res = []
        for f in glob.glob(w + "/out/part*.jsonl"):
            for l in open(f):
                try:
                    res.append(json.loads(l))
                except ValueError:
                    pass
        res.sort(key=lambda x: x["scenario"])
        return res, r.stdout
    finally:
        shutil.rmtree(w, ignore_errors=True)


def known(prop):
    out = []
    for k in json.load(open(V + "/known_findings.json"))["findings"]:
        if k["property"] == prop:
            out.append(k)
    return out


def is_known(k, scen, v):
    return fnmatch.fnmatchcase(scen, k["scenario"]) and all(m in v["msg"] for m in k["match"])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    p = plan.PLAN[prop]
    scens = p["scenarios"] if tier == "quick" else p.get("thorough", p["scenarios"])
    secs, total = (240, 700) if tier == "quick" else (900, 3000)
    depth = p.get("depth", 10) if tier == "quick" else p.get("depth_thorough", 12)
    res, log = analyse(scens, tier, secs, total, depth)
    kn = known(prop)
    seen_known, viol = {}, []
    for r in res:
        for v in r["violations"]:
            if prop not in v["props"].split(","):
                continue
            for i, k in enumerate(kn):
                if is_known(k, r["scenario"], v):
                    seen_known[i] = v
                    break
            else:
                viol.append((r["scenario"], v))
    # ---- evidence
    checks, notes, fns = {}, {}, {}
    st = {}
    for r in res:
        for k, c in r["checks"].items():
            if prop in k.split(":")[0].split(","):
                checks[k] = checks.get(k, 0) + c
        for k, c in r["notes"].items():
            notes[k] = notes.get(k, 0) + c
        for k, (a, b) in r["fns"].items():
            o = fns.get(k, (0, b))
            fns[k] = (max(o[0], a), b)
        for k, c in r["stats"].items():
            st[k] = st.get(k, 0) + c
    oblig = sum(checks.values()) + (st.get("lock_acquisitions", 0) if p.get("locks") else 0)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": plan.EXPL + " " + p["rule"],
            "scenarios": {r["scenario"]: {"wall_s": r["wall"], "abstract_states": r["stats"]["states"], "merged": r["stats"]["merged"],
                                          "completed": not r["timed_out"], "cut_by_depth": r["stats"]["cut_depth"]} for r in res},
            "obligations": oblig,
            "discharged": oblig - sum(v["count"] for _, v in viol),
            "rule_instances": checks,
            "lock_acquisitions_checked": st.get("lock_acquisitions", 0),
            "mir_steps": st.get("steps", 0), "abstract_states": st.get("states", 0), "merged_states": st.get("merged", 0),
            "preemption_points": st.get("preemptions", 0),
            "library_functions_analysed": len(fns),
            "library_blocks_reached": sum(a for a, _ in fns.values()),
            "library_blocks_in_those_functions": sum(b for _, b in fns.values()),
            "functions": {k: f"{a}/{b} blocks" for k, (a, b) in sorted(fns.items())},
            "imprecise_paths": notes,
        },
        "assumptions": plan.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    # ---- report
    incomplete = [r["scenario"] for r in res if r["timed_out"]]
    print(f"{prop}: {len(res)} client scenarios, {len(fns)} library functions, {oblig} obligations, {st.get('states', 0)} abstract states, "
          f"{sum(notes.values())} imprecise paths, {len(incomplete)} incomplete, {time.time()-t0:.0f} s")
    for n, c in sorted(notes.items()):
        print("  note:", n, c)
    if incomplete:
        print("  incomplete (time):", " ".join(incomplete))
    for i, v in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {kn[i]['what']}")
    if viol:
        os.makedirs(V + "/replay", exist_ok=True)
        rp = f"{V}/replay/{prop}.txt"
        with open(rp, "w") as f:
            for s, v in viol:
                f.write(f"scenario {s}\nproperties {v['props']}\nviolation {v['msg']}\ncall path (innermost first):\n")
                for x in v["stack"]:
                    f.write("  " + x + "\n")
                f.write("abstract events leading there:\n")
                for x in v["trace"]:
                    f.write("  " + x + "\n")
                f.write("\n")
        for s, v in viol[:40]:
            print(f"  {s}: {v['msg']}")
            for x in [y for y in v["stack"] if "another_rxrust" in y][:3]:
                print("      in", x)
            for x in v["trace"][-12:]:
                print("        ", x)
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    if len(res) < p.get("min_scenarios", 1) or oblig < p.get("floor", 1):
        die(f"only {len(res)} scenarios / {oblig} obligations were analysed (floor {p.get('min_scenarios', 1)} / {p.get('floor', 1)})")
    sys.exit(0)


if __name__ == "__main__":
    main()
