#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/tools')
import props
man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
with open(R + '/properties.jsonl', 'w') as f:
    for p in props.P:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
        if p.get('na'):
            man['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        else:
            man['checks'].append(dict(property=p['id'], quick_cmd='vc/run.py ' + p['id'], thorough_cmd='vc/run.py %s --thorough' % p['id'],
                technique='contract-based deductive verification: VCs from the LLVM IR of the real code, SMT (z3, cvc5)', level='proof', level_note=p['note']))
json.dump(man, open(R + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(R + '/properties.jsonl'):
        jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(man['checks']), 'claimed', len(man['not_applicable']), 'not applicable')
except ImportError:
    pass
