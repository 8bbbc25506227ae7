import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS, NA
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    if p in PROPS:
        x = PROPS[p]
        m['checks'].append({'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
                            'technique': x.get('technique', 'contract-based deductive verification of the real C code (CBMC function and loop contracts)'),
                            'level': x['level'], 'level_note': x.get('note', '')})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check built yet')})
m['notes'] = 'Checks read /repo/src directly, no build of /repo is needed. Evidence names every contract, obligation count, back end and assumption.'
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
