% list predicates against their defining clauses (solutions in order, bindings and errors)
:- discontiguous(scn/1).
:- foreign(t02_variant(term,term)).
gs_scn :- gs_choice(6, S), gs_reach(S), scn(S).

% the definitions
r_append([], L, L).
r_append([H|T], L, [H|R]) :- r_append(T, L, R).
r_member(X, [Y|_]) :- X = Y.
r_member(X, [_|T]) :- r_member(X, T).
r_memberchk(X, L) :- r_member(X, L), !.
r_reverse(A, B) :- plist(A), !, r_rev(A, [], B).
r_reverse(A, B) :- plist(B), !, r_eqlen(A, B), r_rev(A, [], B).
r_reverse(A, B) :- r_len(A, 0, _), r_rev(A, [], B).
r_rev([], L, L).
r_rev([X|T], A, L) :- r_rev(T, [X|A], L).
r_eqlen([], []).
r_eqlen([_|A], [_|B]) :- r_eqlen(A, B).
plist(L) :- L == [], !.
plist(L) :- nonvar(L), L = [_|T], plist(T).
r_delete([], _, []).
r_delete([H|T], X, R) :- ( H == X -> R = S ; R = [H|S] ), r_delete(T, X, S).
r_select(X, [X|T], T).
r_select(X, [H|T], [H|R]) :- r_select(X, T, R).
r_subtract([], _, []).
r_subtract([H|T], L, R) :- ( r_memberchk(H, L) -> R = S ; R = [H|S] ), r_subtract(T, L, S).
r_permutation([], []).
r_permutation(L, [H|T]) :- r_select(H, L, R), r_permutation(R, T).
r_prefix([], _).
r_prefix([X|A], [X|B]) :- r_prefix(A, B).
r_suffix(L, L).
r_suffix(X, [_|T]) :- r_suffix(X, T).
r_last(L, X) :- r_append(_, [X], L).
r_len([], N, N).
r_len([_|T], M, N) :- M1 is M+1, r_len(T, M1, N).
r_length(L, N) :- ( var(N) -> r_len(L, 0, N) ; integer(N) -> ( N < 0 -> throw(error(domain_error(not_less_than_zero,N),_)) ; r_mk(N, L) ) ; throw(error(type_error(integer,N),_)) ).
r_mk(0, L) :- !, L = [].
r_mk(N, [_|L]) :- N1 is N-1, r_mk(N1, L).
r_nth(B, N, L, X) :- ( integer(N) -> N >= B, I is N-B, r_nth1(I, L, X) ; var(N), r_nth2(L, X, B, N) ).
r_nth1(I, [H|T], X) :- ( I =:= 0 -> X = H ; I > 0, I1 is I-1, r_nth1(I1, T, X) ).
r_nth2([X|_], X, N, N).
r_nth2([_|T], X, I, N) :- I1 is I+1, r_nth2(T, X, I1, N).
r_max([X|L], M) :- r_ext(L, X, max, M).
r_min([X|L], M) :- r_ext(L, X, min, M).
r_ext([], X, _, X).
r_ext([Y|L], X, W, M) :- ( W == max -> ( Y > X -> Z = Y ; Z = X ) ; Y < X -> Z = Y ; Z = X ), r_ext(L, Z, W, M).
r_sum([], 0).
r_sum(L, S) :- L = [_|_], r_sum(L, 0, S).
r_sum([], S, S).
r_sum([X|L], A, S) :- B is A+X, r_sum(L, B, S).
r_flatten(T, F) :- r_flat(T, F0), F = F0.
r_flat(T, [T]) :- var(T), !.
r_flat([], []) :- !.
r_flat([H|T], F) :- !, r_flat(H, A), r_flat(T, B), r_append(A, B, F).
r_flat(T, [T]).
r_maplist(_, []).
r_maplist(G, [X|L]) :- call(G, X), r_maplist(G, L).
r_maplist(_, [], []).
r_maplist(G, [X|L], [Y|M]) :- call(G, X, Y), r_maplist(G, L, M).
r_maplist(_, [], [], []).
r_maplist(G, [X|L], [Y|M], [Z|N]) :- call(G, X, Y, Z), r_maplist(G, L, M, N).
r_maplist(_, [], [], [], []).
r_maplist(G, [X|L], [Y|M], [Z|N], [U|O]) :- call(G, X, Y, Z, U), r_maplist(G, L, M, N, O).
r_maplist(_, [], [], [], [], []).
r_maplist(G, [X|L], [Y|M], [Z|N], [U|O], [V|P]) :- call(G, X, Y, Z, U, V), r_maplist(G, L, M, N, O, P).
:- public(r4/4).
:- public(r5/5).
r4(X, Y, g(X,Y), h(Y)).
r4(X, X, s, X).
r5(X, Y, g(X,Y), h(Y), k(X)).
r5(_, X, s, X, f).
:- public(r1/1).
:- public(r2/2).
:- public(r3/3).
r1(a).
r1(b).
r2(X, f(X)).
r2(_, z).
r3(X, Y, g(X,Y)).
r3(X, X, s).

% the first N solutions, and whether it ends with an error
first(G, N, R) :- g_assign(acc, []), g_assign(num, 0), gs_try(\+ \+ run(G, N), E), g_read(acc, L), R = E-L.
run(G, N) :- call(G), g_read(acc, L), g_assign(acc, [G|L]), g_read(num, K), K1 is K+1, g_assign(num, K1), K1 >= N, !, g_assign(num, 0).
run(_, _).
cmp(G, H, N) :- cmp(G, H, N, t(G), t(H)).
cmp(G, H, N, T, U) :- first(G, N, A-L), first(H, N, B-M), names(L, L1), names(M, M1),
	( t02_variant(A-L1, B-M1) -> true ; gs_out(A-L1), gs_out(B-M1), gs_fail('a list predicate gives other solutions than its definition') ), T = T, U = U.
names([], []).
names([G|L], [As|M]) :- G =.. [F|As0], ( F = r_nth -> As0 = [_|As] ; As = As0 ), names(L, M).

% lists of at most N elements: symbolic integers, shared variables, an atom, a structure
lst(N, Vs, Tails, L) :- N1 is N+1, gs_choice(N1, K), lsk(K, Vs, Tails, L).
lsk(0, _, Tails, L) :- !, gs_pick(Tails, L).
lsk(K, Vs, Tails, [X|L]) :- elt(Vs, X), M is K-1, lsk(M, Vs, Tails, L).
elt(Vs, X) :- gs_choice(4, K), el(K, Vs, X).
el(0, _, X) :- gs_int(e, -1152921504606846976, 1152921504606846975, X).
el(1, Vs, X) :- Vs = [X|_].
el(2, Vs, X) :- Vs = [_,X|_].
el(3, [_,_,V], f(V)).

% 0: member, memberchk, select, delete, last, nth, reverse, permutation, prefix, suffix on one list and an element
scn(0) :- gs_bound(n, N), Vs = [_,_,_], Vs = [_,Y|_], lst(N, Vs, [[],_,z], L), gs_choice(11, P), gs_choice(2, E), ( E =:= 0 -> elt(Vs, X) ; Y = Y ), p0(P, X, Y, L, G, H), ( memo(P), \+ plist(L) -> M = 3 ; M = 30 ), cmp(G, H, M).
memo(_).
p0(0, X, _, L, member(X,L), r_member(X,L)).
p0(1, X, _, L, memberchk(X,L), r_memberchk(X,L)).
p0(2, X, _, L, select(X,L,_), r_select(X,L,_)).
p0(3, X, _, L, delete(L,X,_), r_delete(L,X,_)) :- nv(L).
p0(4, X, _, L, last(L,X), r_last(L,X)).
p0(5, X, _, L, nth(_,L,X), r_nth(1,_,L,X)).
p0(6, X, _, L, nth0(_,L,X), r_nth(0,_,L,X)).
p0(7, X, Y, L, reverse(L,[X,Y,1]), r_reverse(L,[X,Y,1])).
p0(8, X, _, L, permutation(L,[X|_]), r_permutation(L,[X|_])) :- nv(L).
p0(9, X, _, L, prefix([X,_],L), r_prefix([X,_],L)).
p0(10, X, _, L, suffix([X],L), r_suffix([X],L)).
nv(L) :- ( plist(L) -> true ; gs_assume(0) ).
% 1: append with two lists; subtract; prefix, suffix with two lists
scn(1) :- gs_bound(m, N), Vs = [_,_,_], lst(N, Vs, [[],_], A), gs_choice(8, P), lst(N, Vs, [[],_], B), p1(P, A, B, G, H), ( plist(A), plist(B) -> M = 30 ; M = 3 ), cmp(G, H, M).
p1(0, A, B, append(A,B,_), r_append(A,B,_)).
p1(1, A, B, append(_,A,B), r_append(_,A,B)) :- nv(B).
p1(2, A, B, append(A,_,B), r_append(A,_,B)).
p1(3, A, B, append(_,_,A), r_append(_,_,A)) :- ( B == [] -> true ; gs_assume(0) ).
p1(4, A, B, subtract(A,B,_), r_subtract(A,B,_)) :- nv(A), nv(B).
p1(5, A, B, prefix(A,B), r_prefix(A,B)).
p1(6, A, B, suffix(A,B), r_suffix(A,B)) :- nv(B).
p1(7, A, B, reverse(A,B), r_reverse(A,B)).
% 2: length and nth with a number of the whole integer range
scn(2) :- gs_bound(n, N), Vs = [_,_,_], lst(N, Vs, [[],_,z,[_|z]], L), gs_choice(5, P), len(P, L, G, H), cmp(G, H, 3).
len(0, L, length(L,_), r_length(L,_)) :- pl(L).
len(1, L, length(L,N), r_length(L,N)) :- pl(L), ( plist(L) -> num(N), ( integer(N), N > 10 -> no(length(L,N), 'length/2'), gs_assume(0) ; true ) ; gs_int(n, -5, 5, N) ).
len(2, L, nth(I,L,_), r_nth(1,I,L,_)) :- idx(L, I).
len(3, L, nth0(I,L,_), r_nth(0,I,L,_)) :- idx(L, I).
len(4, L, nth1(I,L,_), r_nth(1,I,L,_)) :- idx(L, I).
pl(_).
num(N) :- gs_choice(4, K), ( K =:= 0 -> gs_int(n, -1152921504606846976, 1152921504606846975, N) ; K =:= 1 -> N = a ; K =:= 2 -> N = 1.0 ; N = f(_) ).
idx(L, I) :- ( plist(L) -> gs_int(n, -1152921504606846976, 1152921504606846975, I0), ( I0 > 10 -> no(nth(I0,L,_), 'nth/3 finds an element'), no(nth0(I0,L,_), 'nth0/3 finds an element'), gs_assume(0) ; true ) ; gs_int(n, -3, 5, I0) ), I = I0.
% 3: numbers
scn(3) :- gs_bound(m, N), N1 is N+1, gs_choice(N1, K), nums(K, L), gs_choice(3, P), p3(P, L, G, H), cmp(G, H, 3).
nums(0, []) :- !.
nums(K, [X|L]) :- gs_choice(8, C), ( C =:= 7 -> gs_pick([a,_,2.5], X) ; gs_int(e, -1152921504606846976, 1152921504606846975, X) ), M is K-1, nums(M, L).
p3(0, L, max_list(L,_), r_max(L,_)).
p3(1, L, min_list(L,_), r_min(L,_)).
p3(2, L, sum_list(L,_), r_sum(L,_)).
% 4: flatten and sublist
scn(4) :- gs_choice(2, P), ( P =:= 0 -> nested(2, T), cmp(flatten(T,_), r_flatten(T,_), 3) ; gs_bound(n, N), Vs = [_,_,_], lst(N, Vs, [[]], L), findall(S, sublist(S, L), Ss), subs(L, Ss) ).
nested(D, T) :- gs_choice(5, K), ( K =:= 0 -> gs_int(e, -9, 9, T) ; K =:= 1 -> T = _ ; K =:= 2 -> T = [] ; D =:= 0 -> T = f([a]) ; D1 is D-1, ( K =:= 3 -> nested(D1, A), T = [A] ; nested(D1, A), nested(D1, B), T = [A,B] ) ).
% every subsequence exactly once
subs(L, Ss) :- r_len(L, 0, N), r_len(Ss, 0, M), ( M =:= 1 << N -> true ; gs_fail('sublist/2 gives another number of sublists') ), num(L, 0, I), findall(S, sublist(S, I), Js), isets(Js), findall(S, (sublist(S, L)), Ts), ( t02_variant(Ts, Ss) -> true ; gs_fail('sublist/2 is not repeatable') ).
num([], _, []).
num([_|L], I, [I|M]) :- J is I+1, num(L, J, M).
isets([]).
isets([S|L]) :- asc(S, -1), ck(\+ inn(S, L), 'sublist/2 repeats a sublist'), isets(L).
asc([], _).
asc([X|L], P) :- ck(X > P, 'sublist/2 changes the order'), asc(L, X).
inn(X, [Y|_]) :- X == Y, !.
inn(X, [_|L]) :- inn(X, L).
% 5: maplist
scn(5) :- gs_bound(m, N), Vs = [_,_,_], lst(N, Vs, [[],z], A), gs_choice(9, P), p5(P, A, Vs, N, G, H), cmp(G, H, 20).
p5(0, A, _, _, maplist(r1,A), r_maplist(r1,A)).
p5(1, A, _, _, maplist(r2,A,_), r_maplist(r2,A,_)).
p5(2, A, _, _, maplist(r2,_,A), r_maplist(r2,_,A)).
p5(3, A, Vs, N, maplist(r3,A,B,_), r_maplist(r3,A,B,_)) :- lst(N, Vs, [[]], B).
p5(4, A, Vs, _, maplist(=(V),A), r_maplist(=(V),A)) :- Vs = [_,V|_].
p5(5, A, _, _, maplist(nopred_,A), r_maplist(nopred_,A)).
p5(6, A, Vs, _, maplist(V,A), r_maplist(V,A)) :- Vs = [_,_,V].

p5(7, A, _, _, maplist(r4,A,_,_,_), r_maplist(r4,A,_,_,_)).
p5(8, A, _, _, maplist(r5,_,A,_,_,_), r_maplist(r5,_,A,_,_,_)).
