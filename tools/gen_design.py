#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: repaired defects, planted changes (results in tools/seed_results.txt)."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(R + "/DESIGN.md").read()
fx = "\n".join(f"* {j['property']} `{j['commit']}`: {j['what']}" for j in map(json.loads, open(R + "/known_findings.jsonl")))
res = {}
try:
    for l in open(R + "/tools/seed_results.txt"):
        w = l.split()
        if len(w) >= 3: res[w[0]] = w[2]
except FileNotFoundError: pass
rows = ["| planted change | property | needs | caught |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f))
    r = res.get(i, "?"); rows.append(f"| {i} | {m['property']} | {m['needs']} | {'yes' if r == 'rc=1' else 'not yet run' if r == '?' else 'NO'} |")
def part(tag, txt):
    global d
    b, e = f"<!-- {tag} -->", f"<!-- /{tag} -->"
    if f"@{tag}@" in d: d = d.replace(f"@{tag}@", f"{b}\n{txt}\n{e}")
    else: d = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: f"{b}\n{txt}\n{e}", d, flags=re.S)
part("FIXES", fx); part("SEEDS", "\n".join(rows))
open(R + "/DESIGN.md", "w").write(d)
