#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = "| planted change | caught by | what it breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    t += f"| {f.split('/')[-2]} | {d.get('caught_by', d['property'])} | {d['what_it_breaks']} | {d['needs']} |\n"
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
