import json,subprocess
props="""C05 C05 C09 C26 C01 C01 C01 C01 C02 C03 C01 C09 C01 C02 C01 C02 C04 C04 C04 C04 C04 C02 C02 C08 C08 C08 C08 C18 C19 C18 C21 C28 C28 C07 C07 C17 C15 C13 C13 C19 C27 C29 C13 C14 C24 C24 C25 C25 C07 C07 C08 C10 C08 C08 C16 C16 C17 C20 C27 C27 C26""".split()
log=[l for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines() if l[8:].startswith("fix:")]
extra=json.load(open("/verif/tools/fixed_extra.json"))
props+=extra
assert len(props)==len(log),(len(props),len(log))
fixed=[f"fixed: property={p} {l[:7]} {l[8:].removeprefix('fix: ')}" for p,l in zip(props,log)]
json.dump({"findings":json.load(open("/verif/tools/findings.json")),"fixed":fixed},open("/verif/known_findings.json","w"),indent=1)
