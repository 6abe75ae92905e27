#!/usr/bin/env python3
# DESIGN.md from tools/DESIGN.in.md, the rules of the checks, the findings and the planted bugs.
import json,re,glob,os
root="/verif"
rules={}
for f in glob.glob(root+"/checker/c*.go"):
    for m in re.finditer(r'checks\["(C\d\d)"\] = &checkDef\{.*?rule: ("(?:[^"\\]|\\.)*")',open(f).read(),re.S):
        rules[m.group(1)]=json.loads(m.group(2))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
out=""
why=dict()
for p in props:
    if p["id"] in rules:
        out+=f"**{p['id']} {p['title']}.** {rules[p['id']]}\n*Beyond tests:* {p['why_tests_cant']}\n\n"
k=json.load(open(root+"/known_findings.json"))
fi="Known findings (printed as KNOWN-FINDING, all others alarm):\n\n"
for x in k["findings"]: fi+=f"* {x['property']} `{x['key']}`: {x['what']}\n"
fi+=f"\nRepaired with a `fix:` commit each ({len(k['fixed'])}):\n\n"
for x in k["fixed"]: fi+="* "+x.replace("fixed: property=","")+"\n"
se="| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(root+"/seeded/*/meta.json")):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    c=json.load(open(root+"/tools/caught.json")).get(n,"?") if os.path.exists(root+"/tools/caught.json") else "?"
    se+=f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c} |\n"
s=open(root+"/tools/DESIGN.in.md").read()
s=s.replace("@RULES@",out.strip()+"\n").replace("@FINDINGS@",fi.strip()).replace("@SEEDED@",se.strip())
open(root+"/DESIGN.md","w").write(s)
