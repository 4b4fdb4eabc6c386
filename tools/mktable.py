#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
i = s.index("## Planted bugs")
t = """## Planted bugs

`seeded/<id>/` holds the changes. Each is caught by the check of its own property (its ID's prefix), at the quick tier with
VERIF_SEED=1, unless noted; the specs they are made from are in `tools/seeds`.

| bug | needs | caught by |
|---|---|---|
"""
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    t += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["needs"].replace("|", "/"), m["property"])
open(V + "/DESIGN.md", "w").write(s[:i] + t)
