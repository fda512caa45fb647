#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"C01-a": "C02", "C01-b": "C02, C11", "C02-b": "C01", "C27-a": "C25", "C26-b": "C18", "C04-c": "C03, C05, C06, C15", "C25-c": "C19"}
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    i, m = f.split("/")[-2], json.load(open(f))
    by = m["property"] + (", " + ALSO[i] if i in ALSO else "")
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "or"), m["what_it_breaks"].replace("|", "or"), by))
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
open(p, "w").write(s)
