#!/usr/bin/env python3-vt
import json,jsonschema,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(H+'/properties.jsonl'):
    r=json.loads(l); jsonschema.validate(r,s); ids.append(r['id'])
m=json.load(open(H+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
got=[c['property'] for c in m['checks']]+[n['property'] for n in m['not_applicable']]
assert sorted(ids)==sorted(got) and len(set(ids))==len(ids)
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir(H+'/evidence')):
    jsonschema.validate(json.load(open(H+'/evidence/'+f)),es)
json.load(open(H+'/known_findings.json'))
print('valid', got)
