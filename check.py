#!/usr/bin/env python3
"""check.py ID quick|thorough [scenario]   decide one property on /repo's current working tree.
check.py --replay FILE                     re-run one recorded execution, step by step.
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not give an answer."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/sim")
import build as B
REPO = B.REPO
KNOWN = HERE + "/KNOWN_FINDINGS.txt"
CAP = {"quick": 240, "thorough": 3000}

def files_for(prop=None, scenario=None):
    out = []
    for f in sorted(glob.glob(HERE + "/sim/scen/*.cc")):
        t = open(f).read()
        for m in re.finditer(r"^SCENARIO\(\s*(\w+)\s*,\s*\"(\w+)\"", t, re.M):
            if (prop and m.group(2) == prop) or (scenario and m.group(1) == scenario):
                out.append("scen/" + os.path.basename(f)); break
    return out

def main():
    a = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="conmc.", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        if a[0] == "--replay":
            scen = re.search(r"^scenario (\w+)", open(a[1]).read(), re.M).group(1)
            exe = B.build(tmp, files_for(scenario=scen))
            return subprocess.run([exe, "--replay", os.path.abspath(a[1])], cwd=tmp).returncode
        prop, tier = a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        t0 = time.time()
        files = files_for(prop)
        if not files:
            print(f"no scenario for {prop}"); return 2
        exe = B.build(tmp, files)
        tb = time.time() - t0
        rdir = HERE + "/evidence/replay"
        os.makedirs(rdir, exist_ok=True)
        for f in glob.glob(f"{rdir}/{prop}-*.replay"):
            os.unlink(f)
        cmd = [exe, "--prop", prop, "--out", tmp + "/r.json", "--jobs", str(os.cpu_count() or 4), "--cap", str(CAP[tier]),
               "--rdir", rdir, "--known", KNOWN] + (["--thorough"] if tier == "thorough" else [])
        if len(a) > 2: cmd += ["--scenario", a[2]]
        env = dict(os.environ); env["CONMC_REPO"] = REPO
        p = subprocess.run(cmd, cwd=tmp, env=env)
        try: res = json.load(open(tmp + "/r.json"), strict=False)
        except Exception as e: print(f"ERROR: no result from the explorer (exit {p.returncode}): {e}"); return 2
        if not res: print("ERROR: nothing was run"); return 2
        viol = [r for r in res if r["violation"] and not r["error"]]
        errs = [r for r in res if r["error"]]
        tot = lambda k: sum(r[k] for r in res)
        for r in res:
            b = r["bounds"]
            print(f"{prop} {r['scenario']}: {r['executions']} executions, {r['states']} states, {r['transitions']} transitions, {r['outcomes']} outcomes, "
                  + (f"{r['cases']} cases within, " if r['cases'] else "") + f"bounds sched={b['sched']} fault={b['fault']} async={b['async']}, {'exhausted' if r['exhausted'] else 'NOT exhausted'}, {r['wall_s']:.1f} s")
        known = sorted({k for r in res for k in r["known"]})
        for k in known: print(f"KNOWN-FINDING: property={prop} {k}")
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
              "coverage": {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("executions") + tot("cases"),
                "exhaustive": all(r["exhausted"] for r in res),
                "explanation": "Stateless model checking of the compiled sources of /repo: every listed scenario was run once per combination of its choice points (inputs, orders of events, thread switches, faults) within the bounds; `executions` counts complete runs of the real code, `cases` inputs or operation sequences enumerated inside them, `states` distinct observation histories at quiescent points, `transitions` steps between them. Each execution is itself a run of the implementation checked against the reference model, so every model trace is validated.",
                "samples": [s[:1500] for r in res for s in r["samples"]][:12],
                "outcomes": {r["scenario"]: {"distinct": r["outcomes"], "some": r["outcome_samples"]} for r in res},
                "scenarios": [{k: r[k] for k in ("scenario", "what", "bounds", "executions", "deviating", "choice_points", "states", "transitions", "steps", "cases", "max_choices", "exhausted", "wall_s")} for r in res],
                "known_findings_hit": known},
              "assumptions": ["The kernel, libc threads, DNS, processes and libipmiconsole are the simulated ones of sim/world.cc; threads switch only at calls into them.",
                              "Heap misuse is detected by guard bytes, poisoning and page protection, not by full instrumentation."],
              "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": len(viol)}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1)
        for r in viol:
            print(f"{prop} {r['scenario']}: {r['violation']}")
            print(f"VIOLATION property={prop} replay={r['replay']}")
        if viol: return 1
        for r in errs: print(f"ERROR in {r['scenario']}: {r['violation']} ({r['replay']})")
        return 2 if errs else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
