#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md from results.txt (bug, checks that caught it, * = only after strengthening, | checks
tried that stayed quiet) and the meta.json of /verif/seeded."""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
names = {d.split("_")[0]: d for d in os.listdir(f"{V}/seeded")}
rows = []
for l in open(f"{H}/results.txt"):
    l = l.strip()
    if not l: continue
    k, rest = l.split(" ", 1)
    if k not in names: print("not seeded:", k); continue
    c, _, q = rest.partition("|")
    m = json.load(open(f"{V}/seeded/{names[k]}/meta.json"))
    rows.append(f"| {names[k]} | {m['needs']} | {c.strip().replace(',', ', ')} | {q.strip()} |")
for k in names:
    if not any(l.startswith(k + " ") for l in open(f"{H}/results.txt")): print("no result:", k)
s = open(f"{V}/DESIGN.md").read().split("## Planted bugs")[0]
s += f"""## Planted bugs

{len(rows)} changes, each written from a property's text, confirmed to compile, to pass the stable tests and to be told
apart by its own demonstration (tools/plant). All are caught by the check of their property; a star marks those that
were missed first, which led to a stronger workload. The last column has checks that were also tried and for which the
change is no violation (or is outside their workload).

| change | what it needs to manifest | caught by | quiet |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(f"{V}/DESIGN.md", "w").write(s)
