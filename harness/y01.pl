% grammar rules: translation and phrase/2,3 against an interpreter of grammar bodies
n0 --> [1].
n0 --> [0], n0.
:- dynamic(n1/3).
:- dynamic(term_expansion/2).
gs_scn :- gs_choice(5, K), gs_reach(K), scn(K).
:- discontiguous(scn/1).
% sols(B, T, S0, L, C): the solutions (instances of T with the rest of the list) of the body B on S0, in order; C = 1 when a cut of B was executed
sols(B, T, S0, L, C) :- var(B), !, sols(phrase(B), T, S0, L, C).
sols([], T, S, [T-S], 0) :- !.
sols([X|Xs], T, S0, L, 0) :- !, findall(T-S, append([X|Xs], S, S0), L).
sols((A,B), T, S0, L, C) :- !, sols(A, T, S0, LA, CA), conj(LA, B, T, L, CB), C is CA \/ CB.
sols((I->A;_), T, S0, L, C) :- sols(I, T, S0, [X|_], _), !, conj([X], A, T, L, C).
sols((_->_;B), T, S0, L, C) :- !, sols(B, T, S0, L, C).
sols((I*->A;_), T, S0, L, C) :- sols(I, T, S0, LI, _), LI \== [], !, conj(LI, A, T, L, C).
sols((_*->_;B), T, S0, L, C) :- !, sols(B, T, S0, L, C).
sols((A;B), T, S0, L, C) :- !, sols(A, T, S0, LA, CA), ( CA =:= 1 -> L = LA, C = 1 ; sols(B, T, S0, LB, C), append(LA, LB, L) ).
sols((A|B), T, S0, L, C) :- !, sols((A;B), T, S0, L, C).
sols((I->A), T, S0, L, C) :- !, ( sols(I, T, S0, [X|_], _) -> conj([X], A, T, L, C) ; L = [], C = 0 ).
sols(\+ A, T, S0, L, 0) :- !, ( sols(A, T, S0, [_|_], _) -> L = [] ; L = [T-S0] ).
sols(!, T, S, [T-S], 1) :- !.
sols({!}, T, S, [T-S], 1) :- !.
sols({G}, T, S, L, 0) :- !, findall(T-S, call(G), L).
sols(phrase(B), T, S0, L, 0) :- !, sols(B, T, S0, L, _).
sols(call(N), T, S0, L, 0) :- !, sols(N, T, S0, L, _).
sols(call(n1,A), T, S0, L, 0) :- !, sols(n1(A), T, S0, L, _).
sols(N, T, S0, L, 0) :- findall(r(T,B,P), rule(N, P, B), Rs), rsols(Rs, S0, L).
rsols([], _, []).
rsols([r(T,B,P)|Rs], S0, L) :- term_variables(B, Vs), sols(B, v(T,P,Vs), S0, L0, C), push(L0, L1), ( C =:= 1 -> L = L1 ; rsols(Rs, S0, L2), append(L1, L2, L) ).
push([], []).
push([v(T,P,_)-S|L], [T-S1|L1]) :- append(P, S, S1), push(L, L1).
conj([], _, _, [], 0).
conj([T1-S1|L0], B, T, L, C) :- findall(L1-C1, (T = T1, sols(B, T, S1, L1, C1)), [LB-CB]), ( CB =:= 1 -> L = LB, C = 1 ; conj(L0, B, T, L2, C), append(LB, L2, L) ).
rule(n0, [], [1]).
rule(n0, [], ([0],n0)).
rule(n1(X), P, B) :- g_read(y_rule, r(X,P,B)).
rule(n1(7), [], [1]).
% bodies
bd(D, X, Y, B) :- ( D =:= 0 -> Cs = 9 ; Cs = 18 ), gs_choice(Cs, K), bk(K, D, X, Y, B).
bk(0, _, _, _, [0]). bk(1, _, X, _, [X]). bk(2, _, _, Y, [1,Y]). bk(3, _, _, _, []). bk(4, _, _, _, !). bk(5, _, X, Y, {X=Y}). bk(6, _, _, _, n0). bk(7, _, X, _, {(X=0;X=1)}). bk(8, _, _, _, {fail}).
bk(9, D, X, Y, (A,B)) :- s2(D, X, Y, A, B). bk(10, D, X, Y, (A,B)) :- s2(D, Y, X, A, B). bk(11, D, X, Y, (A;B)) :- s2(D, X, Y, A, B). bk(12, D, X, Y, (A|B)) :- s2(D, X, Y, A, B). bk(13, D, X, Y, \+ A) :- D1 is D-1, bd(D1, X, Y, A).
bk(14, D, X, Y, (A->B;[Y])) :- s2(D, X, Y, A, B). bk(15, D, X, Y, (A*->B;[0])) :- s2(D, X, Y, A, B). bk(16, D, X, Y, (n0->B;A)) :- s2(D, X, Y, A, B). bk(17, D, X, Y, (A->B)) :- s2(D, X, Y, A, B).
s2(D, X, Y, A, B) :- D1 is D-1, bd(D1, X, Y, A), gs_bound(sd, S), D2 is min(D1,S), bd(D2, Y, X, B).
inp(N, L) :- gs_choice(3, K), ( K =:= 0 -> L = [0,1,0] ; K =:= 1 -> L = [1,1] ; gs_int(i, 0, 2, A), gs_int(i, 0, 1, B), L = [A,B|N] ).
same(L, M, E) :- ( eqv(L, M) -> true ; gs_out(L), gs_out(M), gs_fail(E) ).
eqv([], []).
eqv([A|L], [B|M]) :- subsumes_term(A, B), subsumes_term(B, A), eqv(L, M).
% phrase on a body
scn(0) :- gs_bound(d, D), bd(D, X, Y, B), inp([], In), T = X/Y, sols(B, T, In, E, _), findall(T-R, phrase(B, In, R), L), same(L, E, 'phrase/3 of a body'), ends(E, T, F), findall(T, phrase(B, In), M), same(M, F, 'phrase/2 of a body').
ends([], _, []).
ends([T-[]|L], X, [T|M]) :- !, ends(L, X, M).
ends([_|L], X, M) :- ends(L, X, M).
% a rule: the clauses of n1//1 are the translated rule and a second one
scn(1) :- gs_bound(d, D), bd(D, X, Y, B), gs_pick([[],[5],[X,5]], P), rl(P, B, X, Y, V), inp([], In), sols(n1(V), V, In, E, _),
	findall(V-R, phrase(n1(V), In, R), L), same(L, E, 'a rule called by phrase/3'),
	findall(V-R, n1(V, In, R), L2), same(L2, E, 'a translated rule called directly'),
	gs_pick([[],[0],[1],[5],[0,5],[1,5]], S), sel(E, S, F), ( safe_(P, B) -> findall(V, phrase(n1(V), In, S), M), same(M, F, 'a rule with a known rest'), findall(V, n1(V, In, S), M2), same(M2, F, 'a translated rule with a known rest') ; true ).
% the rule n1(X) --> B, its second clause n1(7) --> [1]
rl(P, B, X, _, _) :- ( P == [] -> R = (n1(X) --> B) ; R = (n1(X), P --> B) ), g_assign(y_rule, r(X,P,B)), expand_term(R, C), ck(\+ var(C), translation), add(C), expand_term((n1(7) --> [1]), C2), assertz(C2).
add(C) :- assertz(C).
safe_(P, B) :- ( \+ cutin(B) -> true ; P == [], \+ nilin(B) ).
nilin([]).
nilin(B) :- B =.. [F|As], F \== '.', member(A, As), nonvar(A), nilin(A).
cutin(!).
cutin(B) :- B =.. [_|As], member(A, As), nonvar(A), cutin(A).
sel([], _, []).
sel([V-R|L], S, M) :- ( copy_term(V-R, V1-S) -> M = [V1|M1] ; M = M1 ), sel(L, S, M1).
% bodies with variables, call//N and nested phrases; nondeterminate input
scn(2) :- gs_choice(6, K), inp([], In), ub(K, B, T), ub(K, Br, Tr), sols(Br, Tr, In, E, _), findall(T-R, phrase(B, In, R), L), same(L, E, 'phrase/3 of a meta body').
ub(0, ({X=n0},X), X). ub(1, call(n0), x). ub(2, (call(n0),!,[Y]), Y). ub(3, ([Y],call(n0);[Y]), Y). ub(4, \+ call(n0), x). ub(5, ({X=[0]},X,{X=[Y]},[Z]), X/Y/Z).
% errors
scn(3) :- gs_choice(10, K), er(K).
er(0) :- err(phrase(_, [a], _), instantiation_error, 'phrase of a variable'), err(phrase(_, [a]), instantiation_error, 'phrase of a variable').
er(1) :- gs_int(n, -5, 5, N), err(phrase(N, [a], _), type_error(callable,_), 'phrase of an integer').
er(2) :- gs_int(n, -5, 5, N), err(phrase(([a],N), [a], _), type_error(callable,_), 'phrase of an integer in a body').
er(3) :- err(phrase([a|_], [a], _), instantiation_error, 'partial list').
er(4) :- err(phrase([a|b], [a], _), type_error(list,[a|b]), 'not a list').
er(5) :- gs_int(n, -5, 5, N), err(expand_term((N --> [a]), _), type_error(callable,N), 'head'), err(expand_term((a, [x|_] --> [a]), _), instantiation_error, 'pushback'), err(expand_term((a, x --> [a]), _), type_error(list,x), 'pushback').
er(6) :- err(expand_term((_ --> [a]), _), instantiation_error, 'head'), err(expand_term(((a, _) --> [a]), _), instantiation_error, 'pushback').
er(7) :- err(phrase(undefd, [a], _), existence_error(procedure,undefd/2), 'undefined non-terminal').
er(8) :- err(phrase({throw(error(x,y))}, [a], _), x, 'exception of a goal'), gs_try(phrase(([a],{throw(b)};[]), [a], _), R), ck(R == ball(b), 'ball of a goal').
er(9) :- gs_int(n, -5, 5, N), expand_term(N, T), ck(T == N, 'expansion of an integer'), expand_term((a :- b), C), ck(C == (a :- b), 'expansion of a clause'), expand_term(X, Y), ck(X == Y, 'expansion of a variable'), expand_term(foo(X), Z), ck(Z == foo(X), 'expansion of a fact').
% term_expansion/2 takes precedence
scn(4) :- gs_int(n, -5, 5, N), gs_choice(3, K), assertz((term_expansion(p(X), q(X)) :- X > 0)), assertz(term_expansion((h --> _), h)), te(K, N).
te(0, N) :- expand_term(p(N), T), ( N > 0 -> ck(T == q(N), 'term_expansion') ; ck(T == p(N), 'failed term_expansion') ).
te(1, N) :- expand_term((h --> [N]), T), ck(T == h, 'term_expansion of a grammar rule').
te(2, N) :- expand_term((k --> [N]), T), ck((T = (k(A,B) :- G), ( G == true, A == [N|B] ; G == (A = [N|B]) )), 'translation of a terminal').
