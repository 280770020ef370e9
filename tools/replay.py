#!/usr/bin/env python3
"""replay.py FILE: runs the counterexample FILE (evidence/replay/*.json) on the harness compiled with /repo's current
tree; prints the terms the scenario compares and how it ended. Exit status 1 when it still fails."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import check, specs
r = json.load(open(sys.argv[1]))
if 'vector' not in r: print(r.get('output', '')); sys.exit(1)
run = [x for x in specs.PROPS[r['property']]['runs'] if x['name'] == r['run']][0]
run = dict(run)
if r.get('scn') is not None: run['_scn'] = r['scn']
os.makedirs(check.CACHE, exist_ok=True)
w = tempfile.mkdtemp(prefix='r-', dir=check.CACHE)
try:
    tree = check.build_tree('ir'); eng = check.build_engine()
    bounds = dict(run.get('bounds', {})); bounds.update(r.get('bounds', {}))
    b, o = check.build_harness(run, tree, eng, w, bounds)
    if not b: print(o); sys.exit(2)
    for n, v in r['vector']: print('  %s = %d' % (n, v))
    with open(w + '/vec', 'w') as f: f.write(''.join('%s %d\n' % (n, v) for n, v in r['vector']))
    p = subprocess.run([b], cwd=w, env=dict(os.environ, GSYM_VEC=w + '/vec', GSYM_OUT=w + '/out', GSYM_SHOW='1', LC_ALL='C'), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    sys.stdout.write(p.stdout.decode('latin1')[-6000:])
    st = ''
    try: st = [l for l in open(w + '/out', errors='replace') if l.startswith('GSYM-')][-1].strip()
    except (OSError, IndexError): pass
    print('status %s %s' % (p.returncode, st)); sys.exit(0 if st == 'GSYM-END' else 1)
finally: shutil.rmtree(w, ignore_errors=True)
