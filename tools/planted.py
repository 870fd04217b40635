"""Prints the table of planted bugs for DESIGN.md: which check has to catch which."""
import collections
import json
import pathlib

by = collections.defaultdict(list)
for p in sorted(pathlib.Path(__file__).parent.parent.glob("seeded/*/meta.json")):
    by[json.loads(p.read_text())["property"]].append(p.parent.name)
print("| check | planted bugs it catches |\n|---|---|")
for k in sorted(by):
    print(f"| {k} | {', '.join(by[k])} |")
