"""Rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
D="/verif/seeded"; P="/verif/DESIGN.md"
s=open(P).read()
head="| bug | property | needs | caught by |\n|---|---|---|---|\n"
i=s.index(head)+len(head); j=i
lines=s[i:].split("\n"); k=0
while k<len(lines) and lines[k].startswith("|"): k+=1
rest="\n".join(lines[k:])
rows=""
for b in sorted(os.listdir(D)):
    m=json.load(open(f"{D}/{b}/meta.json"))
    rows+=f"| {b} | {m['property']} | {m['needs'].replace('|','/')} | {m.get('caught_by', m['property'])} |\n"
open(P,"w").write(s[:i]+rows+rest)
