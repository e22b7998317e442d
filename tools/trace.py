#!/usr/bin/env python3
"""usage: trace.py <property> <replay file> [max lines]: verbose, symbolised event log of a replay."""
import re, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exe = f"{V}/build/{sys.argv[1]}/{sys.argv[1]}"
n = int(sys.argv[3]) if len(sys.argv) > 3 else 250
out = subprocess.run([exe, "--replay", sys.argv[2], "--verbose"], capture_output=True, text=True)
L = (out.stderr + out.stdout).split("\n")
tail = L[-12:]
if len(L) > n:
    L = L[:n] + ["..."] + tail
pcs = sorted({p for l in L for p in re.findall(r"\b(0x4[0-9a-f]{5,6})\b", l)})
r = subprocess.run(["llvm-symbolizer-18", "--obj=" + exe] + pcs, capture_output=True, text=True).stdout.strip().split("\n\n")
m = {}
for p, b in zip(pcs, r):
    f = b.split("\n")
    k = 0
    while k + 3 < len(f) and ("/c++/" in f[k + 1] or "atomic_wait" in f[k + 1]):
        k += 2
    nm = f[k]
    for _ in range(30):
        nm = re.sub(r"<[^<>]*>", "", nm)
    nm = re.sub(r"\(.*", "", nm)
    m[p] = "::".join(nm.split("::")[-2:])[-50:] + " " + f[k + 1].split("/")[-1]
for l in L:
    print(re.sub(r"\b(0x4[0-9a-f]{5,6})\b", lambda k: m.get(k.group(1), k.group(1)), l)[:200])
