import json
NOTE="Every behaviour of the TLA+ specification within the bounds named in the evidence is replayed into the tool built from the working tree and its output compared with the specification's; assumes that the byte layout in spec/ is InnoDB's and trusts TLC, the runtimes and the driver."
T="TLA+ specification checked and enumerated by TLC; every behaviour replayed into the real tool"
CLAIM={}
def c(id,what): CLAIM[id]=what
exec(open('/verif/tools/claims.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    if p['id'] in CLAIM:
        checks.append(dict(property=p['id'],quick_cmd="./check.sh "+p['id'],thorough_cmd="VERIF_TIER=thorough ./check.sh "+p['id'],
          evidence_file="evidence/%s.json"%p['id'],technique=T,level="model_checking",level_note=CLAIM[p['id']]+" "+NOTE))
    else: na.append(dict(property=p['id'],reason="no check yet (being built)"))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
