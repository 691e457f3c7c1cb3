#!/usr/bin/env python3
"""seed.py add ID PROP 'needs' 'breaks' DEMO.py EDIT...   make a planted bug from textual edits (file:::old:::new) and validate it in a scratch copy
seed.py check ID [quick|thorough] [PROP]                  run the property's check with the bug applied to a scratch copy"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy():
    d = tempfile.mkdtemp(prefix="seedwt.", dir="/tmp"); sh(f"cp -a /repo {d}/r"); return d
def demo(d, sid):
    x = tempfile.mkdtemp(prefix="seeddemo.", dir="/tmp")
    try:
        sh(f"cp -r {H}/seeded/{sid}/. {x}/ && rm -f {x}/meta.json {x}/patch.diff"); return subprocess.run(["bash", x + "/demo.sh"], cwd=d + "/r", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    finally: shutil.rmtree(x)
def main():
    a = sys.argv[1:]; sid = a[1]; sd = f"{H}/seeded/{sid}"
    d = copy(); r = d + "/r"
    try:
        if a[0] == "add":
            prop, needs, breaks, dem = a[2:6]
            for e in a[6:]:
                f, old, new = e.split(":::"); t = open(f"{r}/{f}").read(); assert t.count(old) == 1, (f, t.count(old), old); open(f"{r}/{f}", "w").write(t.replace(old, new))
            diff = sh(f"git -C {r} diff").stdout; assert diff
            os.makedirs(sd, exist_ok=True); open(sd + "/patch.diff", "w").write(diff); json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(sd + "/meta.json", "w"), indent=1)
            shutil.copy(H + "/tools/demo_h.py", sd + "/h.py"); 
            if os.path.abspath(dem) != sd + "/demo.py": shutil.copy(dem, sd + "/demo.py")
            open(sd + "/demo.sh", "w").write("#!/bin/bash\n# exit 0 if the property holds, nonzero if it is broken\nd=$(cd \"$(dirname \"$0\")\" && pwd)\nPYTHONDONTWRITEBYTECODE=1 exec timeout -k 5 280 python3 \"$d/demo.py\"\n"); os.chmod(sd + "/demo.sh", 0o755)
            sh(f"git -C {r} checkout -- ."); p = sh(f"cd {r}/_build && make -j8"); assert p.returncode == 0, p.stdout
            for k in range(2):
                q = demo(d, sid); print("unchanged: exit", q.returncode, q.stdout[-600:])
                if q.returncode: return 1
        p = sh(f"cd {r} && git apply {sd}/patch.diff"); assert p.returncode == 0, p.stdout
        if a[0] in ("add", "demo"):
            p = sh(f"cd {r}/_build && make -j8 2>&1 | grep -E 'warning|error'; test -x conmand"); print(p.stdout)
            q = demo(d, sid); print("with the bug: exit", q.returncode, q.stdout[-600:])
            t = sh(f"cd {r}/_build && mkdir -p vp-tmp vp-sharness && TMPDIR={r}/_build/vp-tmp SHARNESS_TEST_OUTDIR={r}/_build/vp-sharness timeout 200 make -j1 check </dev/null 2>&1 | grep -E '^# (TOTAL|PASS|FAIL)'"); print(t.stdout.replace("\n", " "))
        tier = a[2] if a[0] == "check" and len(a) > 2 else "quick"; prop = a[3] if a[0] == "check" and len(a) > 3 else json.load(open(sd + "/meta.json"))["property"]
        e = dict(os.environ, VERIF_REPO=r); c = subprocess.run([sys.executable, H + "/check.py", prop, tier], cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("check", prop, "exit", c.returncode); print("\n".join(l[:300] for l in c.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l or ": " in l and "executions" not in l)); return 0
    finally: shutil.rmtree(d)
sys.exit(main())
