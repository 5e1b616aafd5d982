"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (for the author; no check reads it)."""
import json, os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.defaultdict(list)
for d in sorted(os.listdir(root + "/seeded")):
    t[json.load(open(f"{root}/seeded/{d}/meta.json"))["property"]].append(d)
n = sum(map(len, t.values()))
s = open(root + "/DESIGN.md").read()
rows = "\n".join(f"| {k} | {', '.join(v)} |" for k, v in sorted(t.items()))
s = re.sub(r"\| check \| catches \|\n\|---\|---\|\n(?:\|.*\n)*", lambda m: "| check | catches |\n|---|---|\n" + rows + "\n", s)
s = re.sub(r"all \d+ are caught there", f"all {n} are caught there", s)
open(root + "/DESIGN.md", "w").write(s)
print(n)
