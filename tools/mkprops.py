#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl. One P(...) per property.
import json
out=[]
def P(id,title,statement,over,quant,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    out.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})
exec(open('/verif/tools/props_text.py').read())
with open('/verif/properties.jsonl','w') as f:
    for p in out:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(out),"properties")
