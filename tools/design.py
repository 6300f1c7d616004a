"""writes DESIGN.md from tools/DESIGN.md.in, proofs/tracks.py and seeded/"""
import sys,json,glob,os
sys.path.insert(0,'/verif')
from proofs.tracks import PROPS
title={json.loads(l)["id"]:json.loads(l)["title"] for l in open('/verif/properties.jsonl')}
PROBE=json.load(open('/verif/tools/probes.json'))
o=[]
for p,s in PROPS.items():
    o.append("### %s %s\n"%(p,title[p]))
    o.append("*Level:* %s. *Tracks:* %s.\n"%(s["level"],", ".join(s["tracks"]) or "none"))
    if s.get("note"): o.append(s["note"]+"\n")
    if s.get("theorems"): o.append("*Obligations that carry it:* "+", ".join("`%s`"%t for t in s["theorems"])+".\n")
    if s.get("assumptions"): o.append("*Assumed:* "+"; ".join(s["assumptions"])+".\n")
    if s.get("outside"): o.append("*Not under contract:* "+s["outside"]+".\n")
    o.append("*Bounded stand-in (harness):* "+PROBE[p]+"\n")
c=json.load(open('/verif/tools/caught.json'))
t=["| change | property | needs | caught by |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    t.append("| %s | %s | %s | %s |"%(i,m["property"],m["needs"].replace("|","\\|"),c.get(i,"?").replace("|","\\|")))
x=open('/verif/tools/DESIGN.md.in').read().replace("@PROPS@","\n".join(o)).replace("@SEEDS@","\n".join(t))
open('/verif/DESIGN.md','w').write(x)
