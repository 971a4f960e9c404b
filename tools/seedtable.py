#!/usr/bin/env python3
# prints the "Planted bugs" table of DESIGN.md from seeded/*/meta.json
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
star = set(re.findall(r"([\w-]+)\*", (root / "DESIGN.md").read_text()))
t = {}
for m in sorted((root / "seeded").glob("*/meta.json")):
    t.setdefault(json.loads(m.read_text())["property"], []).append(m.parent.name + ("*" if m.parent.name in star else ""))
print("| check | planted bugs |\n|---|---|")
for p in sorted(t):
    print(f"| {p} | {', '.join(t[p])} |")
