#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {  # missed at first -> what was added
    "accounts-unsorted": "order of accounts compared, repeated runs byte by byte", "dedup-entries": "repeated transactions", "reset-amount-clears-all": "resets of single amounts in blocks",
    "same-record-twice": "repeated CSV records", "blank-env-count": "faults in accounts of any depth", "trim-before-append": "journals ending in any whitespace",
    "missing-value": "decoy journals beside the CSV file", "env-fallback": "variables naming missing files", "fmt-first": "several date formats in a journal",
    "asset-colon": "accounts `assets` and `expenses`", "default-status": "records with hardly anything in them", "equal-names": "worlds of up to 30 accounts", "include-comment": "missing includes with files of that name elsewhere",
}
FIRST.update(json.load(open(os.path.join(V, "tools", "seed_notes.json"))) if os.path.exists(os.path.join(V, "tools", "seed_notes.json")) else {})
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    n = FIRST.get(i, "")
    rows.append((m["property"], i, m["needs"], ("not caught: " + n[1:]) if n.startswith("!") else "caught" + (f" [missed at first; added: {n}]" if n else "")))
t = "<!-- seeds -->\n| property | planted bug | needs | its check |\n|---|---|---|---|\n" + "".join("| " + " | ".join(x.replace("|", "/") for x in r) + " |\n" for r in sorted(rows)) + "<!-- /seeds -->"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.find("<!-- seeds -->"), s.find("<!-- /seeds -->")
s = s.replace("@TABLE@", t) if a < 0 else s[:a] + t + s[b + len("<!-- /seeds -->"):]
open(p, "w").write(s)
