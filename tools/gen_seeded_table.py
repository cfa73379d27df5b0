#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |")
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"\| bug \| property \| what it needs \|\n\|----\|----\|----\|\n(\|.*\n)*",
           lambda _: "| bug | property | what it needs |\n|----|----|----|\n" + "\n".join(rows) + "\n", s)
p.write_text(s)
