#!/usr/bin/env python3
"""Development aid: run a check's scenarios without stopping and list every kind of violation with one run number."""
import collections, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from config import CHECKS
prop, secs = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "8"
try:
    exe = check.build(CHECKS[prop]["src"])
except check.CheckError as e:
    print("\n".join(l for l in str(e).splitlines() if "error" in l or "required from here" in l)[:3000]); sys.exit(3)
n = int(os.environ.get("VERIF_WORKERS", "8"))
extra = ["--scenario", sys.argv[3]] if len(sys.argv) > 3 else []
ps = [subprocess.Popen([exe, "--hashes", "--keep-going", "--seed", os.environ.get("VERIF_SEED", "1"), "--first", str(i),
                        "--stride", str(n), "--seconds", secs, "--cpu", str(7 - i)] + extra, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace") for i in range(n)]
tot, scen = 0, collections.Counter()
kinds = {}
import threading
outs = [None] * n
def rd(i): outs[i] = ps[i].communicate()[0]
ts = [threading.Thread(target=rd, args=(i,)) for i in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
maxsteps = collections.Counter()
for o in outs:
    for l in o.splitlines():
        if l.startswith("H "):
            p = l.split(); tot += 1; scen[p[2]] += 1; maxsteps[p[2]] = max(maxsteps[p[2]], int(p[4]))
        elif l.startswith("V "):
            m = re.match(r"V (\d+) (\S+) (\S+) \| (.*)", l)
            if m:
                k = (m.group(2), m.group(3), re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(4))[:110])
                a = kinds.setdefault(k, [0, int(m.group(1)), m.group(4)]); a[0] += 1; a[1] = min(a[1], int(m.group(1)))
print(prop, tot, dict(scen), "maxsteps", dict(maxsteps))
for k, v in sorted(kinds.items(), key=lambda x: -x[1][0])[:30]:
    print(f"{v[0]:6d} first run {v[1]:6d}  {k[0]} {k[1]}: {v[2][:300]}")
