% all-solutions predicates against a grouping computed from the list of solutions
:- discontiguous(scn/1).
:- foreign(t02_variant(term,term)).
:- foreign(t02_renamed(term,term)).
gs_scn :- gs_choice(6, S), gs_reach(S), scn(S).

:- public(mem/2).
mem(X, [X|_]).
mem(X, [_|L]) :- mem(X, L).
eq(A, B, _) :- t02_variant(A, B), !.
eq(A, B, M) :- gs_out(A), gs_out(B), gs_fail(M).

% solutions: rows r(Witness, Value), witnesses and values are symbolic small integers or other terms
rows(0, []) :- !.
rows(N, [r(W,X)|L]) :- wit(W), val(X), M is N-1, rows(M, L).
wit(W) :- gs_choice(3, K), ( K =:= 0 -> gs_int(w, 0, 3, W) ; K =:= 1 -> W = a ; gs_int(w, -1, 1, V), W = f(V) ).
val(X) :- gs_choice(3, K), ( K =:= 0 -> gs_int(x, 0, 3, X) ; K =:= 1 -> X = _ ; X = g(_, b) ).
gval(X) :- gs_choice(2, K), ( K =:= 0 -> gs_int(x, 0, 3, X) ; X = b ).
grows(0, []) :- !.
grows(N, [r(W,X)|L]) :- wit(W), gval(X), M is N-1, grows(M, L).

isort([], _, []).
isort([X|L], D, R) :- isort(L, D, R0), ins(R0, X, D, R).
ins([], X, _, [X]).
ins([Y|L], X, D, R) :- gs_cmp(X, Y, C), ( C < 0 -> R = [X,Y|L] ; C =:= 0 -> ( D =:= 1 -> R = [X,Y|L] ; R = [Y|L] ) ; R = [Y|R1], ins(L, X, D, R1) ).
wits([], []).
wits([r(W,_)|L], [W|M]) :- wits(L, M).
vals([], _, []).
vals([r(W,X)|L], W0, M) :- gs_cmp(W, W0, C), ( C =:= 0 -> M = [X|N] ; M = N ), vals(L, W0, N).
groups(K, Rows, G) :- wits(Rows, Ws), isort(Ws, 0, Us), grp(Us, K, Rows, G).
grp([], _, _, []).
grp([W|Ws], K, Rows, [W-V|G]) :- vals(Rows, W, V0), ( K == setof -> isort(V0, 0, V) ; V = V0 ), grp(Ws, K, Rows, G).
xs([], []).
xs([r(_,X)|L], [X|M]) :- xs(L, M).

% 0: findall/3,4: one fresh copy for each solution, in order, nothing bound
scn(0) :- gs_bound(n, N0), N is N0+1, gs_choice(N, K), rows(K, Rows), gs_choice(4, T0), tmpl(T0, W, X, T), tl(T0, Rows, E0), copy_term(E0, E), gs_snap(0, q(Rows,W,X)),
	ck(findall(T, mem(r(W,X), Rows), L), 'findall/3 fails'), eq(L, E, 'findall/3 gives other solutions'), ck(t02_renamed(L, E0), 'findall/3 shares variables with the solutions'),
	ck(findall(T, mem(r(W,X), Rows), L4, Z), 'findall/4 fails'), ck(var(Z), 'findall/4 binds the tail'), Z = end, app(E, end, E4), eq(L4, E4, 'findall/4 gives other solutions'),
	ck(gs_same(0, q(Rows,W,X), 1), 'findall/3 binds variables'), ck(call(findall, T, (mem(r(W,X), Rows), true), L5), 'findall/3 fails'), eq(L5, E, 'findall/3 gives other solutions').
tmpl(0, _, X, X).
tmpl(1, W, X, t(X,W,X,_)).
tmpl(2, _, X, [X|X]).
tmpl(3, _, _, k).
tl(_, [], []).
tl(T, [r(W,X)|L], [Y|M]) :- tmpl(T, W, X, Y), tl(T, L, M).
app([], T, T).
app([X|L], T, [X|M]) :- app(L, T, M).

% 1: bagof/setof with a free variable: one solution for each witness, in ascending order of the witnesses
scn(1) :- gs_bound(n, N0), N is N0+1, gs_choice(N, K), grows(K, Rows), gs_pick([bagof,setof], P), groups(P, Rows, E), gs_choice(3, F),
	( F =:= 0 -> G = mem(r(W,X), Rows) ; F =:= 1 -> G = Y^(Y = 1, mem(r(W,X), Rows)) ; G = (Z^mem(r(W,X), Rows)), Z = z(_,X) ), ( P == bagof -> C = bagof(X, G, L) ; C = setof(X, G, L) ),
	gs_snap(0, q(Rows,W,X)), findall(W-L, C, R), eq(R, E, 'bagof/setof gives other groups'), ck(gs_same(0, q(Rows,W,X), 1), 'bagof/setof binds variables'),
	wit(W0), gvalof(W0, E, V0), ( W = W0, C -> ( V0 == none -> gs_fail('bagof/setof finds a group that is not there') ; gs_cmp(L, V0, 0) -> true ; gs_out(L), gs_fail('bagof/setof finds another group') ) ; V0 == none -> true ; gs_fail('bagof/setof does not find a group') ).
gvalof(_, [], none).
gvalof(W, [U-V|E], R) :- gs_cmp(W, U, C), ( C =:= 0 -> R = V ; gvalof(W, E, R) ).

% 2: no free variable: the whole list, failing when it is empty
scn(2) :- gs_bound(n, N0), N is N0+1, gs_choice(N, K), gs_choice(2, V), ( V =:= 0 -> grows(K, Rows) ; rows(K, Rows) ), gs_choice(4, F), xs(Rows, Xs), q(F, Rows, X, T, G),
	( F =:= 2 -> ks(Xs, E0) ; F =:= 1 -> hs(Xs, E0) ; E0 = Xs ),
	( F =:= 3, V =:= 1 -> gs_assume(0) ; true ),
	( K =:= 0 -> no(bagof(T, G, _), 'bagof/3 without solution'), no(setof(T, G, _), 'setof/3 without solution')
	; V =:= 0 -> ck(bagof(T, G, L), 'bagof/3 fails'), eq(L, E0, 'bagof/3 gives another list'), isort(E0, 0, E1), ck(setof(T, G, L1), 'setof/3 fails'), eq(L1, E1, 'setof/3 gives another list'), ck(var(X), 'bagof/3 binds')
	; vars(Xs, Vs), Q = Vs, ck(bagof(T, Q^G, L), 'bagof/3 fails'), eq(L, E0, 'bagof/3 gives another list') ).
q(0, Rows, X, X, W^mem(r(W,X), Rows)).
q(1, Rows, X, h(X), (Y-W)^mem(r(W,X), Rows)) :- Y = 3.
q(2, Rows, X, k, W^X^mem(r(W,X), Rows)).
q(3, Rows, X, X, f(W,X)^Z^Rows^(Z = Rows, mem(r(W,X), Z))).
ks([], []).
ks([_|L], [k|M]) :- ks(L, M).
hs([], []).
hs([X|L], [h(X)|M]) :- hs(L, M).
vars(T, Vs) :- term_variables(T, Vs).

% 3: witnesses with variables: solutions whose witnesses are variants form one group
scn(3) :- gs_bound(m, M), gs_choice(M, K0), K is K0+1, vrows(K, 0, Rows), gs_choice(2, P), ( P =:= 0 -> C = bagof(X, Rows^sol(Rows,W,X), L) ; C = setof(X, Rows^sol(Rows,W,X), L) ),
	vg(Rows, E), findall(W-L, C, R), same(R, E).
:- public(sol/3).
sol(Rows, W, X) :- mem(r(W0,X), Rows), copy_term(W0, W).
vrows(N, N, []) :- !.
vrows(N, I, [r(W,I)|L]) :- gs_nth2(W), J is I+1, vrows(N, J, L).
gs_nth2(W) :- gs_choice(6, K), pat(K, W).
pat(0, _).
pat(1, a).
pat(2, f(_)).
pat(3, g(_,_)).
pat(4, g(X,X)).
pat(5, g(_,a)).
vg([], []).
vg([r(W,X)|L], [W-[X|Xs]|G]) :- spl(L, W, Xs, R), vg(R, G).
spl([], _, [], []).
spl([r(V,X)|L], W, Xs, R) :- ( t02_variant(V, W) -> Xs = [X|Ys], R = S ; Xs = Ys, R = [r(V,X)|S] ), spl(L, W, Ys, S).
same([], []) :- !.
same([W-L|R], E) :- ex(E, W, L, E1), !, same(R, E1).
same(R, E) :- gs_out(R), gs_out(E), gs_fail('solutions are not grouped by the variants of the witness').
ex([V-M|E], W, L, E1) :- ( t02_variant(V-M, W-L) -> E1 = E ; E1 = [V-M|F], ex(E, W, L, F) ).

% 4: nesting, with exceptions and cuts between the solutions
scn(4) :- gs_bound(n, N), gs_choice(3, A), gs_choice(3, B), gs_int(k, 0, 4, K), gs_choice(7, P), gs_choice(2, Q), N > 0, xl(A, 10, O), xl(B, 20, I), nest(P, I, K, Y, G),
	( Q =:= 0 -> ck(findall(X-Y, (mem(X, O), G), L), 'findall/3 fails') ; ck((bagof(X-Y, (mem(X, O), G), L) -> true ; L = []), 'bagof/3 fails') ), ex4(O, P, I, K, E), eq(L, E, 'solutions of a nested search').
xl(N, B, L) :- M is N+1, xl(0, M, B, L).
xl(N, N, _, []) :- !.
xl(I, N, B, [X|L]) :- X is B+I, J is I+1, xl(J, N, B, L).
:- public(thr/2).
thr(Y, K) :- ( Y =:= 20+K -> throw(stop) ; true ).
nest(0, I, _, Y, findall(Z, mem(Z, I), Y)).
nest(1, I, K, Y, (catch(findall(Z, (mem(Z, I), thr(Z, K)), Y), _, Y = none))).
nest(2, I, K, Y, (mem(Y, I), thr2(Y, K))).
nest(3, I, K, Y, (catch(bagof(Z, (mem(Z, I), thr(Z, K)), Y), _, fail))).
nest(4, I, K, Y, ( catch(findall(Z, (mem(Z, I), thr(Z, K)), _), _, true), findall(Z, mem(Z, I), Y) )).
nest(5, I, _, Y, ( findall(Z, mem(Z, I), [Y|_]), ! , true ; Y = none )).
nest(6, I, K, Y, ( catch(( findall(U, ( mem(U, I), findall(Z, (mem(Z, I), thr(Z, K)), _) ), Y) ), _, Y = none ) )).
:- public(thr2/2).
thr2(Y, K) :- Y =\= 20+K.
ex4([], _, _, _, []).
ex4([X|O], P, I, K, E) :- ( P =:= 5 -> I = [Y|_], E = [X-Y] ; one(P, I, K, R), put(R, X, E, E1), ex4(O, P, I, K, E1) ).
put([], _, E, E).
put([Y|R], X, [X-Y|E], E1) :- put(R, X, E, E1).
hit([], _) :- fail.
hit([Y|I], K) :- ( Y =:= 20+K -> true ; hit(I, K) ).
one(0, I, _, [I]).
one(1, I, K, [R]) :- ( hit(I, K) -> R = none ; R = I ).
one(2, I, K, R) :- without(I, K, R).
one(3, I, K, R) :- ( hit(I, K) -> R = [] ; R = [I] ).
one(4, I, _, [I]).
one(6, I, K, [R]) :- ( hit(I, K) -> R = none ; R = I ).
without([], _, []).
without([Y|I], K, R) :- ( Y =:= 20+K -> R = S ; R = [Y|S] ), without(I, K, S).

% 5: errors, and instances given in advance
scn(5) :- gs_pick([findall,bagof,setof], P), gs_pick([t(_, instantiation_error), t(3, type_error(callable,3)), t((mem(_,[1]),_), instantiation_error), t((mem(_,[1]),2), type_error(callable,(mem(_,[1]),2))), t(nopred(1), existence_error(procedure,nopred/1))], t(G, E)), call5(P, x, G, _, C), err5(C, E).
scn(5) :- gs_pick([findall,bagof,setof], P), gs_pick([t(a, type_error(list,a)), t([b|c], type_error(list,[b|c])), t(3, type_error(list,3)), t(f(x), type_error(list,f(x)))], t(L, E)), call5(P, X, mem(X, [1,2]), L, C), err(C, E, 'error of the instances').
scn(5) :- gs_pick([t(a, type_error(list,a)), t([b|c], type_error(list,[b|c]))], t(L, E)), err(findall(X, mem(X, [1,2]), _, L), E, 'error of the tail').
scn(5) :- gs_pick([findall,bagof,setof], P), gs_int(a, 0, 3, A), gs_int(b, 0, 3, B), gs_pick([[A,B], [A|_], [_,B], [A], [_,_], [_,_|_], [_,_,_|_], []], L), call5(P, X, mem(X, [2,1]), L, C), ( P == setof -> S = [1,2] ; S = [2,1] ),
	( L \= S -> no(C, 'an instance that is not the list of solutions') ; ck(C, 'the list of solutions is refused'), ck(L == S, 'not the list of solutions') ).
call5(findall, T, G, L, findall(T, G, L)).
call5(bagof, T, G, L, bagof(T, G, L)).
call5(setof, T, G, L, setof(T, G, L)).
err5(C, E) :- gs_try(C, R), ( R = err(E1), t02_variant(E, E1) -> true ; gs_out(R), gs_out(E), gs_fail('error of the goal') ).
