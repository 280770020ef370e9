% sorting against an insertion sort with an independent comparison
:- discontiguous(scn/1).
:- foreign(t02_list(term,-integer)).
gs_scn :- gs_choice(5, S), gs_reach(S), scn(S).

% oracle: stable insertion; Dup = 1 keeps duplicates, K = 1 compares keys
isort([], _, _, []).
isort([X|L], D, K, R) :- isort(L, D, K, R0), ins(R0, X, D, K, R). % inserted from the right: X goes before its equals
ins([], X, _, _, [X]).
ins([Y|L], X, D, K, R) :- key(K, X, A), key(K, Y, B), gs_cmp(A, B, C0), ( C0 =:= 9 -> compare(O, A, B), sg(O, C) ; C = C0 ), ins(C, Y, L, X, D, K, R).
ins(-1, Y, L, X, _, _, [X,Y|L]).
ins(0, Y, L, X, D, _, R) :- ( D =:= 1 -> R = [X,Y|L] ; R = [Y|L] ).
ins(1, Y, L, X, D, K, [Y|R]) :- ins(L, X, D, K, R).
sg(<, -1). sg(=, 0). sg(>, 1).
key(0, X, X).
key(1, K-_, K).

same(A, B, M) :- gs_ident(A, B, E), ( E =:= 1 -> true ; gs_out(A), gs_out(B), gs_fail(M) ).
chk(L, P) :- gs_snap(0, L),
	isort(L, 0, 0, S), isort(L, 1, 0, M),
	ck((sort(L, A), same(A, S, 'sort/2 is wrong')), 'sort/2 fails'), ck((msort(L, B), same(B, M, 'msort/2 is wrong')), 'msort/2 fails'),
	ck((call(sort, L, S)), 'sort/2 fails on its own result'), ck((P =:= 0 ; setof(X, mem(X, L), C), same(C, S, 'setof/3 is not sorted')), 'setof/3 fails'),
	ck(gs_same(0, L, 1), 'sorting changed the list'),
	copy(L, L1), ck((sort(L1), same(L1, S, 'sort/1 is wrong')), 'sort/1 fails'), copy(L, L2), ck((msort(L2), same(L2, M, 'msort/1 is wrong')), 'msort/1 fails').
kchk(L) :- gs_snap(0, L), isort(L, 1, 1, S), ck((keysort(L, A), same(A, S, 'keysort/2 is wrong or not stable')), 'keysort/2 fails'), ck(keysort(L, S), 'keysort/2 fails on its own result'), ck(gs_same(0, L, 1), 'sorting changed the list'),
	copy(L, L1), ck((keysort(L1), same(L1, S, 'keysort/1 is wrong or not stable')), 'keysort/1 fails').
copy([], []).
copy([X|L], [X|M]) :- copy(L, M).
mem(X, [X|_]).
mem(X, [_|L]) :- mem(X, L).

% 0: integers
scn(0) :- gs_bound(n, N0), N is N0+1, gs_choice(N, K), ints(K, L), chk(L, 0).
ints(0, []) :- !.
ints(K, [X|L]) :- ( K =< 2 -> gs_int(e, -1152921504606846976, 1152921504606846975, X) ; gs_int(e, -8, 7, X) ), K1 is K-1, ints(K1, L).
% 1: mixed terms
scn(1) :- gs_bound(m, N), gs_choice(N, K0), K is K0+1, terms(K, [_,_], L), ( ground(L), L \== [] -> chk(L, 1) ; chk(L, 0) ).
terms(0, _, []) :- !.
terms(K, Vs, [X|L]) :- gs_choice(6, C), el(C, Vs, X), K1 is K-1, terms(K1, Vs, L).
el(0, _, X) :- gs_int(e, -5, 5, X).
el(1, Vs, X) :- gs_pick(Vs, X).
el(2, _, X) :- gs_pick([a, ab, [], b], X).
el(3, _, X) :- gs_int(f, 38, 42, F), gs_flt(F, X).
el(4, _, f(X)) :- gs_int(e, 0, 3, X).
el(5, _, X) :- gs_pick([g(a), f(a,b), [a], "ab"], X).
% 2: pairs
scn(2) :- gs_bound(n, N0), N is N0+1, gs_choice(N, K), gs_choice(2, P), prs(K, 0, P, L), kchk(L).
prs(N, N, _, []) :- !.
prs(N, I, P, [X-V|L]) :- ( I =< 1, P =:= 0 -> gs_int(e, -1152921504606846976, 1152921504606846975, X) ; gs_int(e, -8, 7, X) ), ( P =:= 0 -> V = v(I) ; gs_nth(I, [[z,y,x,w],[z,y,x],[z,y],g(1),5,3], V) ), I1 is I+1, prs(N, I1, P, L).
% 3: pairs with keys of several kinds
scn(3) :- gs_bound(m, K), terms(K, [_,_], Ks), num(Ks, 0, L), kchk(L).
num([], _, []).
num([K|L], I, [K-I|M]) :- I1 is I+1, num(L, I1, M).
% 4: errors
scn(4) :- gs_pick([[], [b], [b,a], _, [b|_], [b|c], z, [b,a|9], 3, f(x), [2-a], [1-a,_], [1-a,b], [c-a,b-1|_], [c-1,b-2]], L), gs_pick([s,m,k], W), gs_pick([ok, _, bad, [z|bad]], O), t02_list(L, K), er(W, L, K, O).
out(ok, _) :- !.
out(O, O).
nm(s, L, O, sort(L, O)).
nm(m, L, O, msort(L, O)).
nm(k, L, O, keysort(L, O)).
er(W, L, K, O) :- out(O, R), nm(W, L, R, G), gs_try(G, E), ( O == ok -> Bad = 0 ; var(O) -> Bad = 0 ; Bad = 1 ), exp(K, Bad, W, L, O, E, X), ( X == ok -> true ; gs_out(E), gs_out(G), gs_fail('sort with ill-typed arguments') ).
exp(1, _, _, _, _, err(instantiation_error), ok) :- !.
exp(2, _, _, L, _, err(type_error(list, X)), ok) :- X == L, !.
exp(_, 1, k, _, [z|_], err(type_error(pair, z)), ok) :- !.
exp(_, 1, _, _, O, err(type_error(list, X)), ok) :- X == O, !.
exp(_, _, k, L, _, err(instantiation_error), ok) :- hasv(L), !.
exp(_, _, k, L, _, err(type_error(pair, X)), ok) :- memi(X, L), X \= (_-_), !.
exp(0, 0, W, L, _, yes, ok) :- ( W == k -> allp(L) ; true ), !.
exp(_, _, _, _, _, _, bad).
hasv(L) :- nonvar(L), L = [X|M], ( var(X), ! ; hasv(M) ).
memi(X, L) :- nonvar(L), L = [Y|M], ( Y == X, ! ; memi(X, M) ).
allp([]).
allp([X|L]) :- nonvar(X), X = _-_, allp(L).
