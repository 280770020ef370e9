% symbolic FD constraints
gs_scn :- gs_bound(lo, Lo), gs_bound(hi, Hi), N is Hi-Lo, gs_choice(N, K0), K is K0+Lo, gs_reach(K), ( t(K, Vs, M, C, Ch) -> true ; gs_fail(table) ), lens(Vs, M, Ls, Us), copy_term(Vs-Ch, Ps-CP), prb(Ps, M), gs_choice(4, O), fd_sat3(CP, E),
	gs_try(go(O, C, Vs, Ls, Us, Ps), R), ( E =:= 1 -> ( R == yes -> true ; gs_out(R), gs_out(C), gs_fail('the solver rejects a solution of the symbolic constraint') ) ; R == no -> true ; gs_out(R), gs_out(C), gs_fail('the solver accepts an assignment that violates the boolean constraint') ).
lens([], [], [], []).
lens([_|V], [m(L,U)|M], [L|Ls], [U|Us]) :- lens(V, M, Ls, Us).
prb([], []).
prb([P|Ps], [m(L,U)|M]) :- ( U =:= 1 -> gs_choice(2, P) ; gs_int(p, L, U, P) ), prb(Ps, M).
go(0, C, Vs, Ls, Us, Ps) :- doms(Vs, Ls, Us), call(C), fd_asg(Vs, Ps).
go(1, C, Vs, Ls, Us, Ps) :- doms(Vs, Ls, Us), asg1(Vs, Ps), call(C), fd_asg(Vs, Ps).
go(2, C, Vs, Ls, Us, Ps) :- fd_asg(Vs, Ps), doms(Vs, Ls, Us), call(C).
go(3, C, Vs, Ls, Us, Ps) :- doms(Vs, Ls, Us), call(C), rasg(Vs, Ps).
doms(Vs, Ls, Us) :- fd_doms(Vs, Ls, Us).
asg1([P|_], [P|_]).
rasg([], []).
rasg([V|Vs], [P|Ps]) :- rasg(Vs, Ps), V = P.
fd_sat3(C, E) :- sat3(C, E0), !, E = E0.
sat3(G, 1) :- s(G), !.
sat3(_, 0).
s(alld(L)) :- ad(L).
s(elt(I, L, X)) :- nthe(L, I, Y), Y =:= X.
s(cnt(L, V, Lo, Hi)) :- oc(L, V, 0, N), N >= Lo, N =< Hi.
s(rel(Ts, T)) :- inr(Ts, T).
s(prime(X)) :- X >= 2, npd(2, X).
s(nprime(X)) :- \+ s(prime(X)).
s((A,B)) :- s(A), s(B).
npd(D, X) :- D*D > X, !.
npd(D, X) :- X rem D =\= 0, D1 is D+1, npd(D1, X).
ad([]).
ad([X|L]) :- nin(L, X), ad(L).
nin([], _).
nin([Y|L], X) :- X =\= Y, nin(L, X).
nthe([X|L], I, Y) :- ( I =:= 1 -> Y = X ; I > 1, I1 is I-1, nthe(L, I1, Y) ).
oc([], _, N, N).
oc([X|L], V, N0, N) :- ( X =:= V -> N1 is N0+1 ; N1 = N0 ), oc(L, V, N1, N).
inr([T|Ts], X) :- ( eqs(T, X) -> true ; inr(Ts, X) ).
eqs([], []).
eqs([X|L], [Y|M]) :- X =:= Y, eqs(L, M).
g(X) :- gs_int(k, 0, 4, X).
h(X) :- gs_choice(4, X).
i(m(0,4)).
t(0, [X,Y,Z], [I,I,I], fd_all_different([X,Y,Z]), alld([X,Y,Z])) :- i(I).
t(1, [X,Y,Z], [m(0,3),m(0,2),m(1,4)], fd_all_different([X,K,Y,Z]), alld([X,K,Y,Z])) :- g(K).
t(2, [J,X], [m(0,5),m(0,6)], fd_element(J, [A,2,B,5,A], X), elt(J, [A,2,B,5,A], X)) :- gs_int(k, 0, 6, A), h(B).
t(3, [J,X], [m(1,3),m(2,4)], fd_element(J, [4,A,2,A], X), elt(J, [4,A,2,A], X)) :- gs_int(k, 0, 6, A).
t(4, [J,X,Y,Z], [m(0,4),m(0,3),m(1,4),m(0,5)], fd_element_var(J, [X,3,Y], Z), elt(J, [X,3,Y], Z)).
t(5, [J,X,Z], [m(1,3),m(0,3),m(0,5)], fd_element_var(J, [X,K,X,2], Z), elt(J, [X,K,X,2], Z)) :- g(K).
t(6, [X,Y,Z], [I,I,I], G, cnt([X,Y,Z], V, Lo, Hi)) :- i(I), h(V), h(N), gs_pick([g(fd_atmost(N,[X,Y,Z],V),0,N), g(fd_atleast(N,[X,Y,Z],V),N,9), g(fd_exactly(N,[X,Y,Z],V),N,N)], g(G, Lo, Hi)).
t(7, [X,Y,Z], [I,I,I], G, cnt([X,2,Y,Z], 2, Lo, Hi)) :- i(I), h(N), gs_pick([g(fd_atmost(N,[X,2,Y,Z],2),0,N), g(fd_atleast(N,[X,2,Y,Z],2),N,9), g(fd_exactly(N,[X,2,Y,Z],2),N,N)], g(G, Lo, Hi)).
t(8, [X,Y], [m(0,5),m(0,5)], fd_relation([[0,A],[1,3],[B,2],[5,5]], [X,Y]), rel([[0,A],[1,3],[B,2],[5,5]], [X,Y])) :- h(A), h(B).
t(9, [X,Y,Z], [m(0,5),m(0,5),m(0,5)], fd_relationc([[0,1,2,2],[3,A,0,1],[4,4,1,5]], [X,Y,Z]), rel([[0,3,4],[1,A,4],[2,0,1],[2,1,5]], [X,Y,Z])) :- h(A).
t(10, [X], [m(0,120)], fd_prime(X), prime(X)).
t(11, [X], [m(0,120)], fd_not_prime(X), nprime(X)).
t(12, [X,Y,Z], [I,I,I], (fd_all_different([X,Y,Z]), fd_element(X, [3,1,2], Y)), (alld([X,Y,Z]), elt(X, [3,1,2], Y))) :- i(I).
t(13, [X,Y], [I,I], fd_all_different([X,Y,X]), (alld([X,Y,X]))) :- i(I).
t(14, [X,Y,Z], [I,I,I], (fd_exactly(N, [X,Y,Z], 1), fd_atmost(1, [X,Y], 2)), (cnt([X,Y,Z], 1, N, N), cnt([X,Y], 2, 0, 1))) :- i(I), h(N).
t(15, [J,X], [m(0,4),m(0,120)], fd_element(J, [A,2,B], X), elt(J, [A,2,B], X)) :- gs_int(k, -268435455, 268435455, A), gs_pick([-1,5,1000,100000000], B).
t(16, [X,Y], [m(0,5),m(0,120)], fd_relation([[0,A],[1,3],[B,2]], [X,Y]), rel([[0,A],[1,3],[B,2]], [X,Y])) :- gs_int(k, -268435455, 268435455, A), gs_pick([-1,4,200], B).
% constraints on an integer of the whole range: w(V, Constraint, Meaning)
t(17, [X], [m(0,9)], C, M) :- gs_int(v, -1152921504606846976, 1152921504606846975, V), gs_choice(10, K), w(K, V, X, C, M).
w(0, V, X, fd_element(V, [3,5], X), elt(V, [3,5], X)).
w(1, V, X, fd_element(2, [3,V], X), elt(2, [3,V], X)).
w(2, V, X, fd_element_var(V, [3,X], 5), elt(V, [3,X], 5)).
w(3, V, X, fd_element_var(X, [3,V], 5), elt(X, [3,V], 5)).
w(4, V, X, fd_relation([[1,V],[2,3]], [1,X]), rel([[1,V],[2,3]], [1,X])).
w(5, V, X, fd_relation([[1,4],[2,3]], [V,X]), rel([[1,4],[2,3]], [V,X])).
w(6, V, X, fd_exactly(1, [V,X,1], 1), cnt([V,X,1], 1, 1, 1)).
w(7, V, X, fd_atleast(2, [V,X], V), cnt([V,X], V, 2, 2)) :- ( V >= 0, V =< 120 -> true ; gs_assume(0) ).
w(8, V, X, fd_all_different([X,V,7]), alld([X,V,7])).
w(9, V, X, fd_atmost(0, [V,X], 4), cnt([V,X], 4, 0, 0)).
