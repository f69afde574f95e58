import json,os,re,jsonschema
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); ids.append(p['id'])
    n=len(re.findall(r'[.](?=\s|$)',p['statement']))
    if n>3: print('long statement',p['id'],n)
    for f in p['anchors']['files']:
        assert os.path.exists('/repo/'+f),f
if os.path.exists(V+'/MANIFEST.json'):
    m=json.load(open(V+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    got=[c['property'] for c in m['checks']]+[c['property'] for c in m.get('not_applicable',[])]
    assert sorted(got)==sorted(ids),(set(got)^set(ids))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir(V+'/evidence') if os.path.isdir(V+'/evidence') else []:
    if f.endswith('.json'): jsonschema.validate(json.load(open(V+'/evidence/'+f)),es)
print('ok',len(ids))
