#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep] [--jobs N] [--run NAME] [-v]
Decides one property: builds /repo's working tree with bitcode, compiles the property's harness with the gplc of
that tree, explores it with gsym (symbolic execution + Z3), replays every counterexample and a sample of the
explored paths on the natively compiled program, and writes evidence/PROPERTY.json."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
REPO = os.environ.get('GSYM_REPO', '/repo')
CACHE = os.path.join(V, '.cache')
sys.path.insert(0, os.path.join(V, 'checks'))
CLANG = '/usr/bin/clang-18'
NATIVE_TIMEOUT = 20

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return p.returncode, p.stdout

def filehash(paths):
    h = hashlib.sha1()
    for p in sorted(paths):
        try:
            with open(p, 'rb') as f: d = f.read()
        except OSError: continue
        h.update(p.encode() + b'\0' + str(len(d)).encode() + b'\0'); h.update(d)
    return h.hexdigest()[:16]

def treehash():
    rc, o = sh(['git', '-C', REPO, '-c', 'safe.directory=*', 'ls-files', '-co', '--exclude-standard', '--', 'src', 'examples', 'VERSION', 'COPYING'])
    return filehash([os.path.join(REPO, l) for l in o.split('\n') if l])

class Lock:
    def __init__(self, p): self.p = p
    def __enter__(self):
        import fcntl
        os.makedirs(os.path.dirname(self.p), exist_ok=True)
        self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def build_tree(mode='ir'):
    d = os.path.join(CACHE, 'tree-%s-%s' % (mode, treehash() + filehash([os.path.join(V, 'tools/build_tree.sh'), os.path.join(V, 'tools/wrap/gcc'), os.path.join(V, 'tools/wrap/as')])[:6]))
    with Lock(d + '.lock'):
        if os.path.exists(d + '/.ok'): os.utime(d); return d
        subprocess.run(['rm', '-rf', d])
        # keep the cache small: at most 6 trees
        olds = sorted([os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith('tree-') and os.path.isdir(os.path.join(CACHE, x))], key=os.path.getmtime)
        for o in olds[:-6] if len(olds) > 6 else []: subprocess.run(['rm', '-rf', o])
        rc, o = sh([os.path.join(V, 'tools/build_tree.sh'), d, mode])
        if rc: print(o); print('check: the tree does not build'); sys.exit(2)
        open(d + '/.ok', 'w').close()
    return d

def build_engine():
    src = [os.path.join(V, 'engine', f) for f in os.listdir(os.path.join(V, 'engine'))]
    d = os.path.join(CACHE, 'engine-' + filehash(src))
    with Lock(d + '.lock'):
        if os.path.exists(d + '/.ok'): return d
        os.makedirs(d, exist_ok=True)
        inc = sh(['llvm-config', '--includedir'])[1].strip() or '/usr/lib/llvm-18/include'
        lib = sh(['llvm-config', '--libdir'])[1].strip() or '/usr/lib/llvm-18/lib'
        rc, o = sh(['g++', '-std=c++17', '-O2', '-fno-rtti', '-w', '-I' + inc, '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', '-D_GNU_SOURCE',
                    os.path.join(V, 'engine/gsym.cpp'), '-o', d + '/gsym', '-L' + lib, '-lLLVM-18', '-lz3'])
        if rc: print(o); print('check: the engine does not build'); sys.exit(2)
        rc, o = sh([CLANG, '-O1', '-emit-llvm', '-c', '-w', '-ffreestanding', '-fno-builtin', '-fwrapv', '-fno-strict-aliasing', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D__NO_CTYPE',
                    os.path.join(V, 'engine/libc.c'), '-o', d + '/libc.bc'])
        if rc: print(o); sys.exit(2)
        open(d + '/.ok', 'w').close()
    return d

def tree_env(tree, ir):
    s = tree + '/src'
    e = dict(os.environ)
    e['PATH'] = ':'.join([s + '/' + x for x in ('TopComp', 'EnginePl', 'Pl2Wam', 'Wam2Ma', 'Ma2Asm', 'Fd2C')]) + ':' + e['PATH']
    for k in ('CFLAGS', 'LDFLAGS', 'PL_PATH', 'CC'): e.pop(k, None)
    e['LC_ALL'] = 'C.UTF-8'
    if ir: e['GSYM_IR'] = '1'; e['GSYM_CLANG'] = CLANG; e['PATH'] = os.path.join(V, 'tools/wrap') + ':' + e['PATH']
    return e

def build_harness(run, tree, eng, w, bounds, ir=True):
    """compiles and links the harness in w; returns (native binary, link list)"""
    H = os.path.join(V, 'harness')
    shutil.copy(H + '/gs.h', w)
    with open(w + '/gs_bounds.pl', 'w') as f:
        for k, v in sorted(bounds.items()): f.write('gs_bound(%s, %s).\n' % (k, v))
    with open(w + '/gs_bounds.h', 'w') as f:
        for k, v in sorted(bounds.items()):
            if isinstance(v, int): f.write('#define B_%s %d\n' % (k, v))
    env = tree_env(tree, ir)
    objs = []; errs = []
    jobs = []
    if run.get('gen'):
        rc, out = sh(['python3', H + '/' + run['gen'], w, json.dumps(bounds)], cwd=w)
        if rc: return None, out
    srcs = [w + '/' + f[1:] if f[0] == '@' else H + '/' + f for f in run['src']] + [H + '/gs_lib.c']
    if run.get('_scn') is not None:   # development: one scenario only
        t = open(srcs[0]).read(); t2 = re.sub(r'(?m)^gs_scn :- .*$', 'gs_scn :- scn(%s).' % run['_scn'], t, count=1); srcs[0] = os.path.join(w, os.path.basename(srcs[0])); open(srcs[0], 'w').write(t2)
    if any(f.endswith('.pl') for f in run['src']): srcs += [H + '/gs_lib.pl', w + '/gs_bounds.pl']
    cinc = '-I%s -I%s -I%s/src/EnginePl -I%s/src/BipsPl -I%s/src/EngineFD -I%s/src/BipsFD -I%s/src/Linedit' % (w, H, tree, tree, tree, tree, tree)
    for i, s in enumerate(srcs):
        o = os.path.join(w, os.path.splitext(os.path.basename(s))[0] + ('_pl' if s.endswith('.pl') else '_fd' if s.endswith('.fd') else '') + '.o')
        objs.append(o); jobs.append((s, o))
    def one(s, o):
        wd = tempfile.mkdtemp(dir=w)
        rc, out = sh(['gplc', '-c', '--c-compiler', 'gcc', '-C', '-O1 -w ' + cinc, '-o', o] + run.get('flags', {}).get(os.path.basename(s), []) + [s], cwd=wd, env=dict(env, TMPDIR=wd), timeout=120)
        if rc or not os.path.exists(o) or 'discontiguous' in out: errs.append('%s: %s' % (s, out))
    ths = [threading.Thread(target=one, args=j) for j in jobs]
    [t.start() for t in ths]; [t.join() for t in ths]
    if errs: return None, '\n'.join(errs)
    rc, out = sh(['/usr/bin/gcc', '-O1', '-w', '-c', '-I' + w, H + '/gs_native.c', '-o', w + '/gs_native.o'])
    if rc: return None, out
    rc, out = sh(['gplc', '-o', w + '/h', '--no-top-level'] + objs + [w + '/gs_native.o', '-L', '-Wl,-Map=' + w + '/h.map'], cwd=w, env=env, timeout=120)
    if rc or not os.path.exists(w + '/h'): return None, out
    if ir:
        from linklist import linklist
        with open(w + '/h.lst', 'w') as f:
            for k, p in linklist(w + '/h.map', tree + '/src'): f.write('%s %s\n' % (k, p))
            f.write('B %s/libc.bc\n' % eng)
    return w + '/h', w + '/h.lst'

def replay(binary, vec, w, timeout=NATIVE_TIMEOUT):
    """runs the native program on a vector; returns (status, outputs, message)"""
    d = tempfile.mkdtemp(dir=w)
    with open(d + '/vec', 'w') as f:
        for n, v in vec: f.write('%s %d\n' % (n, v))
    env = dict(os.environ, GSYM_VEC=d + '/vec', GSYM_OUT=d + '/out', LC_ALL='C')
    try:
        p = subprocess.run([binary], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=lambda: (os.setpgrp()))
        rc, txt = p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired: rc, txt = 'timeout', ''
    outs, end, msg = [], None, ''
    try:
        with open(d + '/out', errors='replace') as f:
            for l in f:
                if l.startswith('O '): outs.append(int(l.split()[-1]))
                elif l.startswith('GSYM-'): end, _, msg = l.strip().partition(' ')
    except OSError: pass
    shutil.rmtree(d, ignore_errors=True)
    if end == 'GSYM-FAIL': return 'fail', outs, msg
    if end == 'GSYM-END': return 'end', outs, ''
    if end == 'GSYM-ASSUME': return 'assume', outs, ''
    if end == 'GSYM-INCOMPLETE': return 'incomplete', outs, msg
    if rc == 'timeout': return 'timeout', outs, 'does not terminate'
    if isinstance(rc, int) and rc < 0: return 'crash', outs, 'killed by signal %d' % -rc
    return 'exit', outs, 'terminated with status %s: %s' % (rc, txt.strip()[-200:])

def known_findings(prop):
    r = []
    p = os.path.join(V, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k.get('property') == prop and k.get('status') == 'known': r.append(k)
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--keep'); ap.add_argument('--jobs', type=int, default=0); ap.add_argument('--run'); ap.add_argument('-v', action='store_true'); ap.add_argument('--noevidence', action='store_true')
    ap.add_argument('--time', type=float); ap.add_argument('--bound', action='append', default=[], help='k=v: override a bound (development)'); ap.add_argument('--scn', help='one scenario only (development)')
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    t0 = time.time()
    import specs
    P = specs.PROPS[a.prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = a.jobs or min(16, os.cpu_count() or 4)
    os.makedirs(CACHE, exist_ok=True)
    r = {}
    th = threading.Thread(target=lambda: r.__setitem__('eng', build_engine())); th.start()
    tree = build_tree('ir'); th.join()
    if 'eng' not in r: sys.exit(2)
    eng = r['eng']
    tbuild = time.time() - t0
    work = a.keep or tempfile.mkdtemp(prefix='w-', dir=CACHE)
    os.makedirs(work, exist_ok=True)
    agg = dict(paths=0, ok=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, asserts=0, symbranch=0, instrs=0, solver_s=0.0, unexplored=0, incomplete=0, memerr=0, viol=0)
    functions, samples, runs_ev, notes, violations, mism, validated = set(), [], [], [], [], [], 0
    try:
        for run in P['runs']:
            if a.run and run['name'] != a.run: continue
            if run.get('tier', tier) != tier: continue
            w = os.path.join(work, run['name']); os.makedirs(w, exist_ok=True)
            bounds = dict(run.get('bounds', {}))
            if tier == 'thorough': bounds.update(run.get('thorough', {}))
            bounds.update((b.split('=')[0], int(b.split('=')[1])) for b in a.bound)
            limit = a.time or (run.get('time_thorough', 1500) if tier == 'thorough' else run.get('time', 300))
            tb = time.time()
            if a.scn is not None: run['_scn'] = a.scn
            binary, lst = build_harness(run, tree, eng, w, bounds)
            if not binary:
                # the harness no longer compiles or links with this tree: nothing was decided, except when compiling it is the property
                if run.get('compile_property'):
                    rd = os.path.join(V, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True); rp = os.path.join(rd, '%s-%s-build.json' % (a.prop, tier))
                    with open(rp, 'w') as f: json.dump(dict(property=a.prop, run=run['name'], message='a valid program is not compiled', output=lst[-4000:]), f, indent=1)
                    print(lst[-1500:]); print('VIOLATION property=%s replay=%s' % (a.prop, rp)); sys.exit(1)
                print('check: harness %s does not build:\n%s' % (run['name'], lst[-3000:]))
                sys.exit(2)
            tr = time.time()
            cmd = [eng + '/gsym', '-o', w + '/events', '-t', str(limit), '-j', str(jobs), '-s', str(run.get('samples', 60)), '-q', str(run.get('qtimeout', 20000)), '-V', str(run.get('maxviol', 20)), '-b', str(run.get('budget', 60000000))] + (['-v'] if a.v else []) + [lst]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit + 300)
            if a.v: sys.stderr.write(p.stderr.decode('latin1')[-60000:])
            evs = []
            for l in open(w + '/events', errors='replace'):
                try: evs.append(json.loads(l))
                except ValueError: pass
            summ = [e for e in evs if e['ev'] == 'summary']
            if not summ and not run.get('_again'):   # the engine was ended from outside (memory): once more, with fewer workers
                run['_again'] = 1; cmd[cmd.index('-j') + 1] = str(max(1, jobs // 2)); time.sleep(3); p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit + 300); evs = []
                for l in open(w + '/events', errors='replace'):
                    try: evs.append(json.loads(l))
                    except ValueError: pass
                summ = [e for e in evs if e['ev'] == 'summary']
            if not summ:
                print('check: the engine failed on %s (status %s): %s' % (run['name'], p.returncode, p.stderr.decode('latin1')[-1500:])); sys.exit(2)
            s = summ[0]
            for k in agg:
                k2 = {'solver_s': 'solver_ms'}.get(k, k)
                agg[k] += s.get(k2, 0) / (1e3 if k == 'solver_s' else 1)
            functions.update(s.get('functions', []))
            # replay of every reported path, and of sampled good paths
            seen = {}
            cand = []
            for e in evs:
                if e['ev'] in ('viol', 'memerr', 'incomplete'):
                    key = (e['ev'], e['msg'])
                    seen[key] = seen.get(key, 0) + 1
                    if seen[key] <= 4: cand.append(e)
                elif e['ev'] in ('note', 'crash', 'unknown'): notes.append('%s: %s %s' % (run['name'], e['ev'], e.get('msg', '')))
            ninc = nto = 0
            for e in cand[:60]:
                st, outs, msg = replay(binary, e['vec'], w)
                if st == 'timeout' and nto < 2: nto += 1; st, outs, msg = replay(binary, e['vec'], w, 90)
                if st == 'fail': violations.append(dict(run=run['name'], msg=msg, vec=e['vec'], native=st, where=e.get('where', ''), engine=e['msg']))
                elif st in ('crash', 'exit', 'timeout'): violations.append(dict(run=run['name'], msg=(e['msg'] + ': ' if e['ev'] == 'viol' else '') + 'the program ' + msg, vec=e['vec'], native=st, where=e.get('where', ''), engine=e['msg']))
                else: ninc += 1; notes.append('%s: unconfirmed %s: %s (native: %s) at %s vec %s' % (run['name'], e['ev'], e['msg'], st, e.get('where', '')[:300], json.dumps(e['vec'])[:300]))
            oks = [e for e in evs if e['ev'] == 'ok']
            nval = 0
            for e in oks[:run.get('validate', 40)]:
                st, outs, msg = replay(binary, e['vec'], w)
                if st == 'end' and outs == [o[1] for o in e['out']]: nval += 1
                elif st in ('fail', 'crash', 'exit', 'timeout'): violations.append(dict(run=run['name'], msg=msg, vec=e['vec'], native=st, where='', engine='path explored without violation'))
                else: mism.append(dict(run=run['name'], status=st, native=outs[:60], engine=[o[1] for o in e['out']][:60], vec=e['vec'][:30]))
            validated += nval
            for e in oks[:2]: samples.append(dict(run=run['name'], inputs=e['vec'][:40], outputs=[o[1] for o in e['out']][:40], constraints=e['ncons'], instructions=e['icount']))
            reach = s.get('reach', [])
            missing = [k for k in run.get('reach', []) if not reach[k]]
            re_ = dict(run=run['name'], bounds=bounds, domain=run.get('domain', ''), paths=s['paths'], ok=s['ok'], unexplored=s['unexplored'], incomplete=s['incomplete'] + s['memerr'], queries=s['queries'], solver_s=round(s.get('solver_ms', 0) / 1e3, 2), exhausted=(s['unexplored'] == 0 and s['incomplete'] == 0 and s['memerr'] == 0), validated=nval, build_s=round(tr - tb, 1), wall_s=round(time.time() - tr, 1), reach={str(k): reach[k] for k in run.get('reach', [])})
            runs_ev.append(re_)
            print('%s %s/%s: %d paths (%d ok, %d unexplored, %d incomplete), %d queries, solver %.1fs, %d/%d traces validated, build %.1fs, explored in %.1fs%s' % ('ok' if not violations else '..', a.prop, run['name'], s['paths'], s['ok'], s['unexplored'], s['incomplete'] + s['memerr'], s['queries'], s.get('solver_ms', 0) / 1e3, nval, min(len(oks), run.get('validate', 40)), tr - tb, time.time() - tr, '' if re_['exhausted'] else ' (not exhausted)'))
            if missing and not violations: notes.append('%s: vacuity: points %s not reached' % (run['name'], missing)); print('check: vacuous: %s does not reach %s' % (run['name'], missing))
            if len(violations) >= 20: break
    finally:
        pass
    # report
    known = known_findings(a.prop)
    rd = os.path.join(V, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    reported, knownhit = [], set()
    uniq = {}
    for v in violations: uniq.setdefault((v['run'], v['msg']), v)
    for i, v in enumerate(uniq.values()):
        k = next((k for k in known if k.get('run', v['run']) == v['run'] and k['message'] == v['msg']), None)
        if k: knownhit.add(k['id']); continue
        rp = os.path.join(rd, '%s-%s-%d.json' % (a.prop, tier, i))
        with open(rp, 'w') as f: json.dump(dict(property=a.prop, run=v['run'], message=v['msg'], vector=v['vec'], native=v['native'], engine=v['engine'], where=v['where'], bounds=next((x['bounds'] for x in runs_ev if x['run'] == v['run']), {}), scn=a.scn, howto='tools/replay.py ' + rp), f, indent=1)
        reported.append((v, rp))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    for v, rp in reported:
        print('VIOLATION property=%s replay=%s' % (a.prop, rp)); print('  %s: %s  [%s]' % (v['run'], v['msg'], ' '.join('%s=%d' % tuple(x) for x in v['vec'][:24])))
    for n in sorted(set(notes))[:12]: print('note:', n[:600])
    for m in mism[:3]: print('note: engine/native mismatch:', json.dumps(m)[:800])
    if not a.noevidence:
        exh = all(x['exhausted'] for x in runs_ev)
        ev = dict(property=a.prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), coverage=dict(
            states=int(agg['paths']), transitions=int(agg['symbranch']), traces_validated_against_impl=validated, samples=samples[:6],
            exhausted_within_bounds=exh, paths_ok=int(agg['ok']), paths_violating=int(agg['viol']), paths_unexplored=int(agg['unexplored']), paths_incomplete=int(agg['incomplete'] + agg['memerr']), trace_mismatches=len(mism),
            instructions=int(agg['instrs']), queries=int(agg['queries']), queries_sat=int(agg['sat']), queries_unsat=int(agg['unsat']), queries_unknown=int(agg['unknown']), assertions=int(agg['asserts']), solver_s=round(agg['solver_s'], 2),
            functions_encoded=len(functions), functions=sorted(functions)[:4000], anchors_encoded=sorted(set(P.get('functions', [])) & functions), runs=runs_ev, notes=sorted(set(notes))[:30], outside=P.get('outside', ''), stubs=specs.STUBS),
            violations=[dict(run=v['run'], message=v['msg'], vector=v['vec']) for v, _ in reported], known_findings=sorted(knownhit), build_s=round(tbuild, 1))
        os.makedirs(V + '/evidence', exist_ok=True)
        with open(V + '/evidence/%s.json' % a.prop, 'w') as f: json.dump(ev, f, indent=1)
    if not a.keep: shutil.rmtree(work, ignore_errors=True)
    print('%s: %s in %.1fs (build %.1fs)' % (a.prop, 'VIOLATED' if reported else 'held on everything explored', time.time() - t0, tbuild))
    sys.exit(1 if reported else 0)
if __name__ == "__main__": main()
