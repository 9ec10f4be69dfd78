#!/usr/bin/env python3
# rewrites the table of seeded changes in DESIGN.md
import json,glob,os,re
rows=["| change | caught by | needs |","|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append("| %s | %s | %s |"%(os.path.basename(os.path.dirname(f)),m["property"],m["needs"].replace("|","/")))
p='/verif/DESIGN.md';s=open(p).read()
t="\n".join(rows)+"\n"
if "SEEDTABLE" in s: s=s.replace("SEEDTABLE\n",t)
else: s=re.sub(r"\| change \| caught by \| needs \|\n(\|.*\n)*",lambda m:t,s)
open(p,'w').write(s)
