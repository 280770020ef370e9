#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from checks/specs.py and checks/na.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, V + '/checks')
import specs
NA = getattr(specs, 'NOT_APPLICABLE', {})
with open(V + '/properties.jsonl', 'w') as f:
    for i, p in sorted({**specs.PROPS, **NA}.items()):
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
checks = [dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
               technique=p.get('technique', 'symbolic execution of the compiled code (LLVM bitcode + mapper assembly) with Z3; counterexamples replayed natively'), level='model_checking', level_note=p.get('level_note', specs.LVL)) for i, p in sorted(specs.PROPS.items())]
m = dict(version=1, setup_cmd='tools/setup.sh', checks=checks, not_applicable=[dict(property=i, reason=p['reason']) for i, p in sorted(NA.items())],
         notes='See DESIGN.md. No hooks: /repo carries only fix: commits.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), S)
    print('valid: %d properties, %d checks' % (len(open(V + '/properties.jsonl').readlines()), len(checks)))
except ImportError: print('jsonschema not available: not validated')
for i, p in specs.PROPS.items():
    n = p['statement'].count('. ') + 1
    if len(p['title']) > 80 or n > 3: print('CHECK', i, len(p['title']), n)

import subprocess; subprocess.run([sys.executable, V + '/tools/design.py'], check=True)
