#!/usr/bin/env python3
"""linklist.py MAP TREE_SRC: the objects of a link, in link order, as bitcode (B) or mapper assembly (A) files."""
import os, re, sys

def linklist(mapfile, src):
    dirs = ['EnginePl', 'BipsPl', 'EngineFD', 'BipsFD', 'Linedit', 'Tools']
    seen, out = set(), []
    for l in open(mapfile, errors='replace'):
        # constructors' order is the order of input sections: collect objects by first appearance in .init_array/.ctors, then the rest
        m = re.match(r'^\s*\.(?:text|ctors|init_array|data|bss|rodata)\S*\s+0x\S+\s+0x\S+\s+(\S.*)$', l)
        if not m:
            m = re.match(r'^LOAD (\S+)$', l)
        if not m: continue
        p = m.group(1)
        if p in seen: continue
        seen.add(p); out.append(p)
    # init order
    order = []
    on = False
    for l in open(mapfile, errors='replace'):
        if l.startswith('.init_array'): on = True
        elif on and l.strip() and not l[0].isspace(): break
        if on:
            m = re.match(r'^\s+\.(?:ctors|init_array)\S*\s+0x\S+\s+0x\S+\s+(\S.*)$', l)
            if m: order.append(m.group(1))
    out = order + [p for p in out if p not in order]
    res, done = [], set()
    for p in out:
        m = re.match(r'^(.*)\((.*)\)$', p)
        if m:
            lib, mem = m.groups()
            cands = [os.path.join(os.path.dirname(lib), mem)] + [os.path.join(src, d, mem) for d in dirs]
        elif p.endswith('.o'):
            cands = [p]
        else: continue
        for c in cands:
            c = os.path.realpath(c)
            hit = None
            if os.path.exists(c + '.bc'): hit = ('B', c + '.bc')
            elif os.path.exists(c + '.gs'): hit = ('A', c + '.gs')
            if hit:
                if hit not in done: done.add(hit); res.append(hit)
                break
        else:
            if p.startswith('/usr/') or p.endswith('gs_native.o') or 'trampoline.o' in p: continue
            sys.stderr.write('linklist: no IR for %s\n' % p)
    return res

if __name__ == '__main__':
    for k, p in linklist(sys.argv[1], sys.argv[2]): print(k, p)
