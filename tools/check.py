#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree by symbolic
execution of its LLVM IR. Tier and seed come from the environment."""
import fnmatch, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = json.load(open(f"{V}/tools/plan.json"))
    p = plan[pid]
    cfg = {"time": 20, "total": 60, "qt": 1500}
    if tier == "thorough":
        cfg = {"time": 240, "total": 700, "qt": 10000}
    cfg.update(p.get(tier, {}))
    out = tempfile.mkdtemp(prefix=f"vh-{pid}-")
    try:
        return run(pid, tier, seed, p, cfg, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def run(pid, tier, seed, p, cfg, out, t0):
    # the engine and, from the current source, the IR and the replay binary
    eng = subprocess.Popen(
        ["cargo", "build", "--release", "--offline", "-q"], cwd=f"{V}/lirsym",
        env=dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=f"{V}/target/lirsym"),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = sh([f"{V}/tools/build_ir.sh", out, p["features"]])
    eo = eng.communicate()[0]
    if eng.returncode != 0:
        print(eo)
        print("the engine does not build")
        return 2
    if b.returncode != 0:
        print(b.stdout)
        print("the harness does not build against the current tree")
        return 2
    lirsym = f"{V}/target/lirsym/release/lirsym"
    tb = time.time() - t0
    ll = f"{out}/all.ll"
    names = sorted(set(re.findall(r"^define[^@\n]*@([a-z][a-z0-9_]*)\(", open(ll).read(), re.M)))
    hs = []
    for g in p["harnesses"] + (p.get("thorough_harnesses", []) if tier == "thorough" else []):
        for n in names:
            if fnmatch.fnmatch(n, g) and n not in hs:
                hs.append(n)
    for g in p.get("exclude", []) if tier == "quick" else []:
        hs = [h for h in hs if not fnmatch.fnmatch(h, g)]
    if not hs:
        print("no harness")
        return 2
    # known findings: replayed on the real code, reported, not raised
    known = [k for k in json.load(open(f"{V}/known_findings.json"))["findings"] if k["property"] == pid]
    for k in known:
        r = subprocess.run(["timeout", "-s", "KILL", "20", f"{out}/replay"], input=k["input"] + "\n",
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if "@@FAIL" in r.stdout or r.returncode not in (0,):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    js = f"{out}/o.json"
    cmd = [lirsym, ll, "--harness", ",".join(hs), "--replay", f"{out}/replay", "--json", js, "--threads", "8",
           "--time", str(cfg["time"]), "--total", str(cfg["total"]), "--query-timeout", str(cfg["qt"]), "--max-steps", str(p.get("max_steps", 3000000)),
           "--seed", str(seed)]
    r = sh(cmd, timeout=cfg["total"] * 1.2 + 60)
    print(r.stdout, end="")
    if not os.path.exists(js):
        print("the engine gave no result")
        return 2
    res = json.load(open(js))
    bad = [x for x in res if x["violation"]]
    evidence(pid, tier, seed, p, cfg, res, bad, time.time() - t0, tb)
    rc = 0
    for x in bad:
        rp = f"{V}/evidence/{pid}.{x['harness']}.replay"
        with open(rp, "w") as f:
            f.write(x["replay"] + "\n")
        print(f"{x['harness']}: {x['violation']}")
        print(f"   input: {x['replay']}   (re-run: tools/replay.sh {pid} < {rp})")
        print(f"VIOLATION property={pid} replay={rp}")
        rc = 1
    if rc == 0:
        n = sum(x["unfinished"] + sum(x["undecided"].values()) for x in res)
        print(f"{pid}: held on {sum(x['paths'] for x in res)} paths of {len(res)} harnesses"
              f" ({n} paths left undecided), {time.time() - t0:.1f} s")
    return rc


def demangle(l):
    try:
        o = subprocess.run(["c++filt"], input="\n".join(l), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    except OSError:
        return l
    return [re.sub(r"\[[0-9a-f]{8,}\]", "", x) for x in o if x]


def evidence(pid, tier, seed, p, cfg, res, bad, wall, tb):
    fn = set()
    for x in res:
        fn |= set(x["functions"])
    fn = demangle(sorted(fn))
    own = sorted(set(f for f in fn if "auburn" in f))
    tot = lambda k: sum(x[k] for x in res)
    und = {}
    for x in res:
        for k, v in x["undecided"].items():
            und[k] = und.get(k, 0) + v
    full = [x["harness"] for x in res
            if x["unfinished"] == 0 and not x["undecided"] and x["step_limit"] == 0 and x["unsettled"] == 0]
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": tot("replayed"),
        "samples": [x["sample"] for x in res if x["sample"]][:12],
        "exhaustive": False,
        "explanation": "states = feasible paths of the real code followed to their end; transitions = solver-decided forks; "
                       "every assertion on a path is discharged by the solver for all inputs of that path; "
                       "traces = path witnesses re-run on the natively compiled code",
        "harnesses": len(res),
        "harnesses_fully_decided": full,
        "assertions_checked": tot("checks"),
        "queries": tot("queries"),
        "queries_unsat": tot("unsat"),
        "queries_unknown": tot("unknown"),
        "queries_closed_by_integer_boxes": tot("boxed"),
        "solver_errors": tot("solver_errors"),
        "solver_s": round(tot("solver_s"), 2),
        "build_s": round(tb, 2),
        "infeasible_paths": tot("infeasible"),
        "unfinished_paths": tot("unfinished"),
        "undecided_paths": und,
        "rounding_band_candidates": tot("bands"),
        "candidates_not_reproduced": tot("unsettled"),
        "step_limit_paths": tot("step_limit"),
        "max_branch_depth": max(x["max_depth"] for x in res),
        "functions_encoded": own,
        "other_functions_encoded": len(fn) - len(own),
        "bounds": p["bounds"],
        "per_harness": [{k: x[k] for k in ("harness", "paths", "unfinished", "checks", "queries", "unsat", "unknown",
                                           "unsettled", "solver_s", "cpu_s")} for x in res],
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump({
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": p.get("assumptions", []) + json.load(open(f"{V}/tools/plan.json"))["_assumptions"],
        "wall_s": round(wall, 2), "violations": len(bad),
    }, open(f"{V}/evidence/{pid}.json", "w"), indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except subprocess.TimeoutExpired:
        print("timed out")
        sys.exit(2)
