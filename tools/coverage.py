#!/usr/bin/env python3
"""Which basic blocks of the library no simulated run reaches (a tool for extending the generator; no check uses it).

usage: coverage.py [COUNT [SEED0 [PROFILES]]]
"""
import os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

count = int(sys.argv[1]) if len(sys.argv) > 1 else 3000
seed0 = int(sys.argv[2]) if len(sys.argv) > 2 else 1
profiles = sys.argv[3].split(",") if len(sys.argv) > 3 else ["P%02d" % i for i in range(1, 25)]
exes = build.build(list(build.VARIANTS))
hit_lines, all_lines = {}, {}
for v, exe in exes.items():
    with tempfile.TemporaryDirectory() as t:
        def one(p):
            f = os.path.join(t, p)
            n = count // 10 if p == "P22" else count
            subprocess.run([exe, "run", "--profile=" + p, "--seed0=%d" % seed0, "--count=%d" % n, "--time=600", "--nomin", "--out=" + t, "--covdump=" + f], stdout=subprocess.DEVNULL)
            return set(int(x) for x in open(f).read().split()) if os.path.exists(f) else set()
        with ThreadPoolExecutor(8) as ex:
            hit = set().union(*ex.map(one, profiles))
    dis = subprocess.run(["objdump", "-d", "-j", "armci_text_r0", exe], stdout=subprocess.PIPE, text=True).stdout
    base, pcs, want = None, [], False
    for l in dis.splitlines():
        m = re.match(r"\s*([0-9a-f]+):\t", l)
        if not m:
            continue
        a = int(m.group(1), 16)
        if base is None:
            base = a
        if want:
            pcs.append(a); want = False
        if "__sanitizer_cov_trace_pc" in l and "call" in l:
            want = True
    lines = subprocess.run(["addr2line", "-f", "-e", exe] + [hex(p) for p in pcs], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    for i, p in enumerate(pcs):
        fn, loc = lines[2 * i], os.path.basename(lines[2 * i + 1].split(" ")[0])
        k = (loc.split(":")[0], int(loc.split(":")[1]) if loc.split(":")[1].isdigit() else 0, fn)
        all_lines.setdefault(k, set()).add(v)
        if (p - base) & 0x7ffff in hit:
            hit_lines.setdefault(k, set()).add(v)
miss = sorted(k for k in all_lines if k not in hit_lines)
for k in miss:
    print("%s:%d %s" % (k[0], k[1], re.sub("^r0_", "", k[2])))
print("%d of %d block positions reached" % (len(hit_lines), len(all_lines)))
