#!/usr/bin/env python3
"""Development aid: rewrites the "fixed:" lines of known_findings.txt from /repo's log. Never run by a check."""
import subprocess, re, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OLD = dict(l.split() for l in """0955d74 C01
d055f3c C01
180ddfc C02
3b01f38 C04
4c4d5ab C04
1335152 C04
cff9615 C04
f42356c C04
d2a3434 C04
cd35f91 C05
a7fc540 C05
0d1f27f C02
b8718c5 C07
90113b4 C01
8179509 C03
1637c50 C03
e28544c C02
8e90f21 C02
67fddbc C06
b755356 C06
5aea10e C06
e9be7df C03
38b1192 C03
d9c244b C03
e159259 C04
15274c2 C05
d87c982 C05
ec8eea7 C09
0e13b4a C09
d9f673b C10""".splitlines())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s%x00%b%x01", "8ded214..HEAD"], text=True)
p = os.path.join(HERE, "known_findings.txt")
keep = [l for l in open(p).read().split("\n") if l and not l.startswith("fixed:")]
out = []
for e in log.split("\x01"):
    f = e.strip("\n").split("\0")
    if len(f) < 3 or not f[1].startswith("fix:"): continue
    m = re.search(r"^property=(C\d+)", f[2], re.M)
    prop = m.group(1) if m else OLD[f[0][:7]]
    out.append("fixed: property=%s %s %s" % (prop, f[0], f[1][5:]))
open(p, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixed entries")
