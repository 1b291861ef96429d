import re,json,os,glob
V="/verif"
t=open(f"{V}/tools/design.tmpl.md").read()
fx=[re.match(r"fixed: property=(\S+) (\S+) (.*)",l).groups() for l in open(f"{V}/known_findings.txt") if l.startswith("fixed:")]
t=t.replace("@NFIX@",str(len(fx))).replace("@FIXES@","\n".join(f"* {p} `{h[:7]}` – {w}" for p,h,w in fx))
rows=["| bug | breaks | needs | caught by |","|---|---|---|---|"]
also=json.load(open(f"{V}/tools/catches.json")) if os.path.exists(f"{V}/tools/catches.json") else {}
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i=d.split("/")[-2]; m=json.load(open(d))
    rows.append(f"| {i} | {m['property']}: {m['what_it_breaks']} | {m['needs']} | {', '.join(also.get(i,['?']))} |")
t=t.replace("@SEEDS@","\n".join(rows))
open(f"{V}/DESIGN.md","w").write(t)
