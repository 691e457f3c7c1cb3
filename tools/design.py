#!/usr/bin/env python3
"""Regenerates the catalogue of scenarios at the end of DESIGN.md."""
import glob, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    sys.argv = ["props.py"]; t = open(H + "/DESIGN.md").read(); mark = "<!-- scenarios -->"; i = t.index(mark); o = mark + "\n"
    last = ""
    for f in sorted(glob.glob(H + "/sim/scen/c*.cc")):
        for m in re.finditer(r'^SCENARIO\((\w+), "(C\d+)", ([\d, ]+?), "((?:[^"\\]|\\.)*)"\)', open(f).read(), re.M):
            if m.group(2) != last: last = m.group(2); o += f"\n**{last}** (`{os.path.relpath(f, H)}`)\n\n"
            b = m.group(3).replace(" ", "").split(","); o += f"* `{m.group(1)}` [{'/'.join(b[:3])} → {'/'.join(b[3:])}] {m.group(4)}\n"
    open(H + "/DESIGN.md", "w").write(t[:i] + o)
main()
