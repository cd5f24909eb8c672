import json, jsonschema, glob
S = lambda n: json.load(open('/root/.vp/%s.schema.json' % n))
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), S('MANIFEST'))
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    jsonschema.validate(d, S('PROPERTIES'))
    assert d['statement'].count('. ') <= 2, d['id']
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
assert len(set(ids)) == len(ids)
m = json.load(open('/verif/MANIFEST.json'))
assert set(ids) == set([c['property'] for c in m['checks']] + [c['property'] for c in m['not_applicable']])
for e in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(e)), S('EVIDENCE'))
print('valid', len(ids))
