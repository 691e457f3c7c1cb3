#!/usr/bin/env python3
"""cover.py OUT.txt [PROP..]   runs the quick checks of an instrumented build: which basic blocks of the programs' sources no execution reaches."""
import glob, os, re, subprocess, sys, tempfile, shutil, mmap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/sim")
import build as B
real = B.run
def run(cmd):
    if cmd[0] == "gcc" and "-c" in cmd and "/src/" in cmd[cmd.index("-c") + 1]: cmd = cmd[:1] + ["-fsanitize-coverage=trace-pc", "-fno-pie"] + [c if c != "-O1" else "-O0" for c in cmd[1:]]
    elif cmd[0] == "g++" and "-c" in cmd: cmd = cmd[:1] + ["-fno-pie"] + cmd[1:]
    elif cmd[0] == "g++" and "-rdynamic" in cmd: cmd = cmd[:1] + ["-no-pie", COV] + cmd[1:]
    real(cmd)
B.run = run
tmp = tempfile.mkdtemp(prefix="cover."); hits = set(); allb = set(); COV = tmp + "/cov.o"
open(tmp + "/cov.c", "w").write(r'''
#include <sys/mman.h>
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/syscall.h>
static unsigned char *m;
__attribute__((constructor)) static void init(void) { const char *f = getenv("COVFILE"); if (!f) return; int fd = syscall(SYS_open, f, O_RDWR); if (fd >= 0) m = (void*)syscall(SYS_mmap, 0, 1 << 24, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0); }
void __sanitizer_cov_trace_pc(void) { unsigned long pc = (unsigned long)__builtin_return_address(0) - 0x400000; if (m && pc < (1 << 24)) m[pc] = 1; }
''')
subprocess.run(["gcc", "-O1", "-fno-pie", "-c", tmp + "/cov.c", "-o", COV], check=True)
byscen = {}
for f in sorted(glob.glob(H + "/sim/scen/c*.cc")):
    for m in re.finditer(r'^SCENARIO\((\w+), "(C\d+)"', open(f).read(), re.M): byscen.setdefault(m.group(2), set()).add("scen/" + os.path.basename(f))
for prop in (sys.argv[2:] or sorted(byscen)):
    d = tmp + "/" + prop; exe = B.build(d, sorted(byscen[prop])); cf = d + "/cov"; open(cf, "wb").truncate(1 << 24)
    subprocess.run([exe, "--prop", prop, "--out", d + "/r.json", "--jobs", "8", "--cap", os.environ.get("COVCAP", "25"), "--rdir", d, "--known", H + "/KNOWN_FINDINGS.txt"], cwd=d, env=dict(os.environ, COVFILE=cf, CONMC_REPO=B.REPO), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    pcs = [int(x, 16) for x in re.findall(r"^\s+([0-9a-f]+):.*\n(?=.*)", "", re.M)]
    dis = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True).stdout.splitlines(); c = open(cf, "rb").read()
    rets = [int(dis[i + 1].split(":")[0], 16) for i, l in enumerate(dis) if "call" in l and "<__sanitizer_cov_trace_pc>" in l and i + 1 < len(dis) and ":" in dis[i + 1]]
    loc = subprocess.run(["addr2line", "-e", exe], input="\n".join(hex(r) for r in rets), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    for r, l in zip(rets, loc):
        l = l.split(" ")[0]; l = l.split("/src/")[-1]; allb.add(l)
        if c[r - 0x400000]: hits.add(l)
    print(prop, len(rets), len(hits), len(allb), flush=True); shutil.rmtree(d)
with open(sys.argv[1], "w") as o:
    for l in sorted(allb - hits, key=lambda x: (x.split(":")[0], int(x.split(":")[1]) if x.split(":")[1].isdigit() else 0)):
        f, n = l.split(":"); 
        try: t = open(f"{B.REPO}/src/{f}").read().split("\n")[int(n) - 1]
        except Exception: t = ""
        o.write(f"{l}: {t.strip()}\n")
shutil.rmtree(tmp)
