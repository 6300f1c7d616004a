import json,sys
sys.path.insert(0,'/verif')
from proofs.tracks import PROPS, TRACKS
import subprocess
hook=[l.split()[0] for l in subprocess.run("git -C /repo log --format=%H\\ %s".split(" ",4) if 0 else ["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines() if "gp_verif" in l]
checks=[]
for p,s in PROPS.items():
    c=dict(property=p,quick_cmd="python3 check.py %s --tier quick"%p,thorough_cmd="python3 check.py %s --tier thorough"%p,
      evidence_file="evidence/%s.json"%p,
      technique=s.get("technique","bounded check of the real code against an independent reference (stand-in until its functions are under contract)"),
      level=s["level"],level_note=s.get("note","Bounded: random and exhaustive small inputs through the real crate, compared with an independent reference implementation."))
    if s.get("theorems"): c["theorems"]=s["theorems"]
    checks.append(c)
m=dict(version=1,setup_cmd="bash setup.sh",hooks=dict(guard="cfg(gp_verif)",enable='RUSTFLAGS="--cfg gp_verif" when building /verif/harness',source_commits=hook),checks=checks,not_applicable=[],
 notes="Known findings: known-findings.txt. See DESIGN.md.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
