"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the recorded results.

usage: seeds_table.py RESULTS  (lines "SEED: C01[rule] C02[rule] ...")"""
import json
import pathlib
import re
import sys

ROOT = pathlib.Path(__file__).resolve().parents[1]
res = {}
for ln in pathlib.Path(sys.argv[1]).read_text().splitlines():
    k, _, v = ln.partition(":")
    res[k.strip()] = v.strip()
rows = ["| change | property | what it needs | reported by |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|', '/')} | {res.get(d.name, 'missed')} |")
p = ROOT / "DESIGN.md"
s = p.read_text()
s = s[:s.index("<!-- seeds -->")] + "<!-- seeds -->\n\n" + "\n".join(rows) + "\n"
p.write_text(s)
print(len(rows) - 2, "rows;", sum("missed" in r for r in rows), "missed")
