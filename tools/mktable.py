#!/usr/bin/env python3
"""Makes the table of DESIGN.md from runbugs.py's output: mktable.py OUT"""
import re, sys, collections
t = collections.defaultdict(lambda: collections.defaultdict(list))
for l in open(sys.argv[1], errors="replace"):
    m = re.match(r"(\S+)\s+(C\d\d):caught \d+s by (\S+)", l) or re.match(r"(\S+)\s+(C\d\d):(MISSED)", l)
    if m: t[m[2]][m[3]].append(m[1])
out = ["| check | found by | planted bugs |", "|---|---|---|"]
for c in sorted(t):
    for k in sorted(t[c]): out.append(f"| {c} | {k} | {', '.join(sorted(t[c][k]))} |")
s = open("DESIGN.md").read()
a, b = "<!-- table -->\n", "\n<!-- /table -->"
s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n".join(out) + b, s, flags=re.S)
open("DESIGN.md", "w").write(s)
