"""Writes /verif/MANIFEST.json from properties.jsonl and the modules in pbt/props."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
TECH=dict(C01='Hypothesis: generated containers against an acceptance oracle',C02='Hypothesis: generated operation histories against a plain-ndarray model',
 C03='Hypothesis: generated call histories, snapshots and fresh-object differential',C21='Hypothesis: metamorphic relation (motion / scaling) over all queries',
 C22='Hypothesis: generated objects, inspection of the drawn artists',C23='Hypothesis: near-threshold cases against math.isclose on the exact quantity',
 C24='Hypothesis: generated calls of every query against a table of result types and refusals')
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f'{V}/pbt/props/{i.lower()}.py'):
        checks.append(dict(property=i,quick_cmd=f'./check {i}',thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
          technique=TECH.get(i,'Hypothesis: generated inputs against exact rational oracles'),level='exploration',
          level_note='Property-based search over the generated domain described in DESIGN.md (counts in the evidence file); no proof of absence. '
            'Trusts Hypothesis, Python fractions, IEEE arithmetic and the stated tolerances.'))
    else: na.append(dict(property=i,reason='check not built yet'))
json.dump(dict(version=1,setup_cmd='./setup',checks=checks,not_applicable=na),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
