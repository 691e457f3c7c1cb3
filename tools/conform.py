#!/usr/bin/env python3
"""Compares the simulated system with the real kernel: every sequence of operations up to a depth on connections, pipes,
terminals, files, streams, descriptors, signals and locks, carried out by the same program on both.  conform.py [DEPTH]"""
import collections, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); SIM = os.path.join(HERE, "..", "sim"); sys.path.insert(0, SIM)
import build
depth = sys.argv[1] if len(sys.argv) > 1 else "3"
# What the scenarios do not depend on, or where the simulated system deliberately differs (see DESIGN.md).
ALLOW = []
with tempfile.TemporaryDirectory() as d:
    exe = build.build(d + "/b", ["conform/ops.cc", "conform/sim.cc"])
    subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-o", d + "/native", SIM + "/conform/ops.cc", SIM + "/conform/native.cc", "-lutil"], check=True)
    os.mkdir(d + "/scratch")
    real = subprocess.run([d + "/native", depth, d + "/scratch"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
    r = subprocess.run([exe, "--prop", "CONFORM", "--cap", "800"], env=dict(os.environ, CONFORM_DEPTH=depth, CONFORM_OUT=d + "/sim.out"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
    if not os.path.exists(d + "/sim.out"):
        sys.exit(r.stdout)
    sim = open(d + "/sim.out").read().splitlines()
key = lambda l: l.split(":", 1)[0]
a, b = {key(l): l for l in real}, {key(l): l for l in sim}
bad = collections.defaultdict(list); n = collections.Counter()
for k in sorted(set(a) | set(b)):
    n[k.split()[0]] += 1
    if a.get(k) != b.get(k):
        bad[k.split()[0]].append((a.get(k), b.get(k)))
for k in n:
    print(f"{k}: {n[k]} sequences, {len(bad[k])} differ")
    for r, s in bad[k][:int(os.environ.get('SHOW', 4))]:
        print("   real ", r); print("   sim  ", s)
sys.exit(1 if any(bad.values()) else 0)
