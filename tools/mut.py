#!/usr/bin/env python3
"""mut.py PROP[,PROP..] 'file:::old:::new' ...  - each mutant (one per argument; join edits with ';;;') is applied to a scratch copy and checked."""
import sys, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(m):
    d = tempfile.mkdtemp(prefix="mut"); r = d + "/repo"; v = d + "/verif"
    try:
        shutil.copytree("/repo", r, symlinks=True); shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "evidence", "seeded")); os.makedirs(v + "/evidence/replay")
        for e in m.split(";;;"):
            f, o, n = e.split(":::"); p = r + "/" + f; s = open(p).read()
            if s.count(o) != 1: return "BAD (%d matches): %s" % (s.count(o), e)
            open(p, "w").write(s.replace(o, n))
        out = []
        for c in props:
            x = subprocess.run(["python3", v + "/check.py", c, tier], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            l = [q for q in (x.stdout + x.stderr).splitlines() if "VIOLATION" not in q and "executions," not in q and "KNOWN" not in q]
            out.append("%s rc=%d %s" % (c, x.returncode, " | ".join(l)[-250:]))
        return ("CAUGHT " if any("rc=1" in o for o in out) else "MISSED ") + m[:150].replace("\n", "\\n") + "\n      " + "\n      ".join(out)
    finally: shutil.rmtree(d)
props = sys.argv[1].split(","); tier = "quick"
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(run, sys.argv[2:]): print(r, flush=True)
