#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two marker comments) from seeded/*/meta.json.

tools/seed_results.json holds, per bug, the checks found to catch it (written by 'seed.py run --save')."""
import json, os, re
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res={}
p=os.path.join(HERE,"tools","seed_results.json")
if os.path.exists(p): res=json.load(open(p))
rows=["| planted bug | needs | caught by (quick) |","|---|---|---|"]
for b in sorted(os.listdir(os.path.join(HERE,"seeded"))):
    m=json.load(open(os.path.join(HERE,"seeded",b,"meta.json")))
    rows.append(f"| {b} | {m['needs']} | {res.get(b,'not run')} |")
s=open(os.path.join(HERE,"DESIGN.md")).read()
s=re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)",lambda m:m[1]+"\n".join(rows)+"\n"+m[2],s,flags=re.S)
open(os.path.join(HERE,"DESIGN.md"),"w").write(s)
