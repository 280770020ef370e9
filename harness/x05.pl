% labelling and optimisation
gs_scn :- gs_choice(5, K), gs_reach(K), scn(K).
:- discontiguous(scn/1).
st(0, [X,Y], X+Y #=< K, K, 3).
st(1, [X,Y], X #< Y+K, K, 2).
st(2, [X,Y,Z], (X #\= Y, Y #\= Z, X+Y+Z #= 3+K), K, 3).
st(3, [X,Y], (X*Y #= 4+K), K, 3).
st(4, [X,Y,Z], (fd_all_different([X,Y,Z]), X #> K), K, 2).
st(5, [X,Y], (X #= Y #<=> B, B #= K), K, 1).
sat(0, [X,Y], K) :- X+Y =< K.
sat(1, [X,Y], K) :- X < Y+K.
sat(2, [X,Y,Z], K) :- X =\= Y, Y =\= Z, X+Y+Z =:= 3+K.
sat(3, [X,Y], K) :- X*Y =:= 4+K.
sat(4, [X,Y,Z], K) :- X =\= Y, Y =\= Z, X =\= Z, X > K.
sat(5, [X,Y], K) :- ( X =:= Y -> B = 1 ; B = 0 ), B =:= K.
in(Vs) :- fd_domain(Vs, 0, 3).
store(T, Vs, K) :- gs_choice(6, T), st(T, Vs, C, K, M), gs_int(k, 0, M, K0), gs_conc(K0, K), in(Vs), ( call(C) -> true ; gs_assume(0) ).
opts(Os) :- gs_pick([standard,first_fail,ff,most_constrained,smallest,largest,max_regret,random], VM), gs_pick([min,max,middle,bisect,random,limits], WM), gs_pick([true,false], R), Os = [variable_method(VM),value_method(WM),reorder(R)].
% every solution exactly once
scn(0) :- store(T, Vs, K), copy_term0(Vs, Ps), prb(Ps), opts(Os), findall(Vs, fd_labeling(Vs, Os), L), length(L, N), sort(L, L1), length(L1, N1), ck(N =:= N1, 'fd_labeling gives a solution twice'),
	( sat(T, Ps, K) -> ck(memb(Ps, L), 'fd_labeling misses a solution') ; ck(\+ memb(Ps, L), 'fd_labeling gives a wrong solution') ).
copy_term0(Vs, Ps) :- length(Vs, N), length(Ps, N).
prb([]).
prb([P|Ps]) :- gs_int(p, 0, 3, P), prb(Ps).
memb(P, [X|L]) :- ( eqs(P, X) -> true ; memb(P, L) ).
eqs([], []).
eqs([X|L], [Y|M]) :- X =:= Y, eqs(L, M).
% order of the solutions for the standard variable order
scn(1) :- store(_, Vs, _), gs_pick([min-min,max-max,bisect-bisect], W-O), findall(Vs, fd_labeling(Vs, [value_method(W)]), L), ord(O, L), findall(Vs, fd_labeling(Vs), M), ord(min, M), ( Vs = [X|_] -> findall(X, fd_labeling(X), Xs), ord(min, Xs), sort(Xs, Xs1), ck(Xs == Xs1, 'values of one variable') ; true ).
ord(min, L) :- sort(L, S), ck(L == S, 'fd_labeling(min) not in ascending order').
ord(max, L) :- sort(L, S), rev(S, [], R), ck(L == R, 'fd_labeling(max) not in descending order').
ord(bisect, L) :- sort(L, S), length(L, N), length(S, M), ck(N =:= M, 'a solution is given twice').
rev([], L, L).
rev([X|L], A, R) :- rev(L, [X|A], R).
% optimisation
scn(2) :- store(T, Vs, K), gs_choice(3, C), cost(C, Vs, E), V #= E, gs_choice(2, D), copy_term0(Vs, Ps), prb(Ps), cost(C, Ps, EP), ( D =:= 0 -> G = fd_minimize(fd_labeling(Vs), V) ; G = fd_maximize(fd_labeling(Vs), V) ),
	gs_try(G, R), ( sat(T, Ps, K) -> ck(R == yes, 'optimisation fails although there is a solution'), P is EP, ( D =:= 0 -> ck(V =< P, 'fd_minimize result is not minimal') ; ck(V >= P, 'fd_maximize result is not maximal') ) ; true ),
	( R == yes -> ck(sat(T, Vs, K), 'the optimum is not a solution'), V1 is E, ck(V =:= V1, 'the value of the optimum is not its cost') ; true ).
cost(0, [X,Y|_], X+2*Y).
cost(1, [X,Y|_], 6-X+Y).
cost(2, [X|_], X).
% labelling leaves nothing behind
scn(3) :- store(_, Vs, _), doms(Vs, D0), opts(Os), ( fd_labeling(Vs, Os), gs_reach(5), fail ; true ), doms(Vs, D1), ck(D0 == D1, 'domains not restored after labelling'), ( fd_labeling(Vs, [backtracks(B)|Os]) -> ck((integer(B), B >= 0), backtracks) ; true ).
doms([], []).
doms([X|L], [D|T]) :- fd_dom(X, D), doms(L, T).
% many variables: groups of equal variables, so that a large part becomes instantiated together
scn(4) :- gs_pick([first_fail,most_constrained,smallest,largest,max_regret,random,standard], VM), gs_pick([true,false], R), gs_pick([30,40], N1), gs_pick([22,27], N2), gs_int(k, 0, 4, K0), gs_conc(K0, K), gs_choice(4, O),
	mkl(N1, L1), mkl(N2, L2), fd_domain(L1, 0, 1), fd_domain(L2, 0, 1), eql(L1), eql(L2), L1 = [A|_], L2 = [B|_], fd_domain(C, 0, 1), fd_domain(D, 0, 1), A+2*B+C #\= K, app3(O, L1, L2, C, D, L),
	findall([A,B,C,D], (fd_labeling(L, [variable_method(VM),reorder(R)]), ck(allint(L), 'fd_labeling leaves a variable')), S),
	findall([A1,B1,C1,D1], (v01(A1), v01(B1), v01(C1), v01(D1), A1+2*B1+C1 =\= K), S0), msort(S, S1), sort(S0, S2), ck(S1 == S2, 'fd_labeling of many variables').
v01(0).
v01(1).
app3(0, L, M, C, D, R) :- append(L, [C,D|M], R).
app3(1, L, M, C, D, R) :- append(M, [C|L], R0), append(R0, [D], R).
app3(2, L, M, C, D, R) :- mixl(L, M, [C,D], R).
app3(3, L, M, C, D, [C,D|R]) :- append(L, M, R).
mixl([X|L], [Y|M], T, [X,Y|R]) :- !, mixl(L, M, T, R).
mixl([], M, T, R) :- !, append(M, T, R).
mixl(L, [], T, R) :- append(L, T, R).
mkl(0, []) :- !.
mkl(N, [_|L]) :- N1 is N-1, mkl(N1, L).
eql([_]) :- !.
eql([X,Y|L]) :- X #= Y, eql([Y|L]).
allint([]).
allint([X|L]) :- integer(X), allint(L).
