"""c02: generates the programs (fixed seed) that are compiled by the tree's gplc"""
import json, random, sys
w, B = sys.argv[1], json.loads(sys.argv[2])
# --- control schemes as compiled clauses
L = ['true', 'fail', '!', 'X = 1', 'm(X)', 'e(X)', 'throw(X)', 'm(Y)', 'X = Y', 'p(X)', 'Y == 2', 'nonvar(X)']
T = ['(A, B, C)', '(A ; B)', '(A -> B ; C)', '(A *-> B ; C)', '((A, B -> C) ; e(5))', '(\\+ (A, B), C)', '((A ; B), C)', '(A, (B ; C))', '(call((A, B)), C)', '(once((A, B)), C)', '(catch((A, B), 1, C), e(X))', '(catch((A, B), Y, C), e(X))',
     '(catch(A, Y, B), C)', '(catch((catch(A, 1, B), C), Y, e(Y)))', '(forall(A, B), C)', '((m(X), A -> B ; C), m(Y))', '((A *-> B, C), m(Y))', '(m(X), \\+ \\+ (A, B), e(X))', '((A, ! ; B), e(X), C)', '((A -> B), ! ; C)', '(\\+ (A -> B ; C))', '((m(X), e(X) ; A), B, m(Y), C)',
     '((A ; B -> C ; e(6)), ev2(X, Y))', '(e(1), (A -> (B -> C ; e(2)) ; e(3)), m(Y))', '((m(Y), (A ; B ; C)) , e(Y))', '(A, B, C, !, m(Y) ; e(4))', '((A -> B) ; (C -> e(1)) ; e(2))', '(\\+ A, !, B ; C)', '(m(X), (A *-> B ; C), ev2(X,Y))', '(p(X), A, (B, ! ; C), m(Y))']
r = random.Random(20261119)
out, tb = [], []
n = B['nctl']
for i in range(n):
    t = T[i % len(T)]
    g = ''.join(r.choice(L) if c in 'ABC' else c for c in t)
    out.append('k%d(X, Y) :- %s.' % (i, g)); tb.append('ktab(%d, t(X,Y,(%s)), k%d(X,Y), X, Y).' % (i, g, i))
# --- first-argument indexing
I = {'i0': ['0', '1', '2', '3', '4', '5', '6', '7', '100', '-1', '1152921504606846975', '-1152921504606846976', '4294967296', '5', '2147483648'],
     'i1': ['a', 'b', 'ab', '[]', "''", 'a', "'A'", '(.)', '{}', 'foo', "'\\n'"],
     'i2': ['1', 'a', 'X', 'f(X)', '[X|Y]', '1', '[]', 'f(a)', 'X', 'g(X,Y)', 'f(X,Y)', '2.5', 'a', '[a]', '1.0', '3', 'f(b)', '[]'],
     'i3': ['[]', '[X|Y]', '[a|X]', 'X', '[]', '[X]'],
     'i4': ['f(a)', 'f(b)', 'g(a)', 'f(X,a)', 'f(X)', 'g(a,b)', "'.'(a)", 'g(X)', 'h(a)'],
     'i5': ['1', '2', '3'], 'i6': ['X', '1', 'X'], 'i7': ['1.5', '2.5', '1', '1.5', '-0.0', '0.0', 'a', '0'],
     'i8': ['a', '[X|Y]', '7', 'b'], 'i9': [str((k * 7919) % 2000 - 900) for k in range(25)],
     'i10': ['X', 'a', 'b', 'X', 'c', 'a', 'X'], 'i11': ['f(X,Y,Z)', 'f(X,Y)', 'f(X)', 'f']}
def numv(t): return t
for k in sorted(I, key=lambda x: int(x[1:])):
    for j, a in enumerate(I[k]):
        out.append('%s(%s, %d, k).' % (k, a, j)); tb.append('itab(%s, %s, %d).' % (k[1:], a, j))
    for j, a in enumerate(I[k]): out.append('d%s(%s, %d) :- true, e0(%d).' % (k, a, j, j))
    tb.append('ipred(%s, X, J, %s(X, J, k), d%s(X, J)).' % (k[1:], k, k))
tb.sort(key=lambda s: s.split('(')[0])
out.append('e0(_).')
# --- random clauses: head unification, argument construction, variable allocation
V = ['A', 'B', 'C', 'D', 'E', '_']
def term(d, vs):
    c = r.random()
    if d == 0 or c < .42:
        return r.choice(vs) if r.random() < .72 else r.choice(['a', '1', '[]', 'b', '-3', '2.5'])
    f = r.choice(['f', 'g', 'l', 'l', 'h'])
    if f == 'f': return 'f(%s)' % term(d - 1, vs)
    if f == 'g': return 'g(%s,%s)' % (term(d - 1, vs), term(d - 1, vs))
    if f == 'h': return 'h(%s,%s,%s)' % (term(d - 1, vs), term(d - 1, vs), term(0, vs))
    return '[%s|%s]' % (term(d - 1, vs), term(d - 1, vs))
def goal(d, vs):
    c = r.random()
    if d > 0 and c < .12: return '(%s ; %s)' % (body(d - 1, vs), body(d - 1, vs))
    if d > 0 and c < .22: return '(%s -> %s ; %s)' % (goal(d - 1, vs), body(d - 1, vs), body(d - 1, vs))
    if d > 0 and c < .27: return '\\+ %s' % goal(0, vs)
    c = r.random()
    if c < .3: return 'w(%s)' % term(2, vs)
    if c < .4: return 'w(%s,%s)' % (term(2, vs), term(1, vs))
    if c < .5: return 's(%s,%s)' % (term(2, vs), term(2, vs))
    if c < .62: return '%s = %s' % (r.choice(vs[:-1]), term(2, vs))
    if c < .72: return 'n(%s)' % term(1, vs)
    if c < .78: return '%s == %s' % (r.choice(vs), term(1, vs))
    if c < .83: return 'nonvar(%s)' % r.choice(vs)
    if c < .87: return 'q(%s,%s,%s)' % (term(1, vs), term(1, vs), term(1, vs))
    if c < .90: return 'arg(1,%s,%s)' % (r.choice(['f(%s)' % term(1, vs), '[%s|b]' % term(1, vs)]), term(0, vs))
    if c < .93: return '!'
    if c < .96: return 'functor(%s,%s,%s)' % (term(1, ['f(a)', '[b]', 'c']), term(0, vs), term(0, vs))
    return 'f(%s) =.. [F|%s]' % (term(1, vs), r.choice(vs)) if False else 'copy_term(%s,%s)' % (term(1, vs), r.choice(vs))
def body(d, vs): return ', '.join(goal(d, vs) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))) or 'true'
for i in range(B['ncl']):
    vs = r.sample(V[:-1], r.choice([2, 3, 4, 5])) + ['_']
    args = [term(r.choice([0, 1, 2]), vs) for _ in range(3)]
    b = ', '.join(goal(2, vs) for _ in range(r.choice([0, 1, 2, 3, 4]))) or 'true'
    out.append('c%d(%s) :- %s.' % (i, ','.join(args), b)); b = b.replace(' = ', ' .=. ').replace('arg(', 'ua('); tb.append('ctab(%d, c(%s), (%s), X1, X2, X3, c%d(X1,X2,X3)).' % (i, ','.join(args), b, i))
open(w + '/c02_prog.pl', 'w').write('\n'.join(':- discontiguous(%s).' % x for x in []) + '\n'.join(out) + '\n')
open(w + '/c02_tab.pl', 'w').write(':- op(700, xfx, .=.).\n' + '\n'.join(tb) + '\n')
