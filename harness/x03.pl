% boolean and reified FD constraints
gs_scn :- gs_bound(lo, Lo), gs_bound(hi, Hi), N is Hi-Lo, gs_choice(N, K0), K is K0+Lo, gs_reach(K), ( t(K, Vs, M, C, Ch) -> true ; gs_fail(table) ), lens(Vs, M, Ls, Us), copy_term(Vs-Ch, Ps-CP), prb(Ps, M), gs_choice(4, O), fd_sat3(CP, E),
	gs_try(go(O, C, Vs, Ls, Us, Ps), R), ( E =:= 1 -> ( R == yes -> true ; gs_out(R), gs_out(C), gs_fail('the solver rejects a solution of the boolean constraint') ) ; R == no -> true ; gs_out(R), gs_out(C), gs_fail('the solver accepts an assignment that violates the boolean constraint') ).
lens([], [], [], []).
lens([_|V], [m(L,U)|M], [L|Ls], [U|Us]) :- lens(V, M, Ls, Us).
prb([], []).
prb([P|Ps], [m(L,U)|M]) :- ( U =:= 1 -> gs_choice(2, P) ; gs_int(p, L, U, P) ), prb(Ps, M).
go(0, C, Vs, Ls, Us, Ps) :- doms(Vs, Ls, Us), call(C), fd_asg(Vs, Ps).
go(1, C, Vs, Ls, Us, Ps) :- doms(Vs, Ls, Us), asg1(Vs, Ps), call(C), fd_asg(Vs, Ps).
go(2, C, Vs, Ls, Us, Ps) :- fd_asg(Vs, Ps), doms(Vs, Ls, Us), call(C).
go(3, C, Vs, Ls, Us, Ps) :- doms(Vs, Ls, Us), call(C), rasg(Vs, Ps).
doms(Vs, Ls, Us) :- fd_doms(Vs, Ls, Us).
asg1([P|_], [P|_]).
rasg([], []).
rasg([V|Vs], [P|Ps]) :- rasg(Vs, Ps), V = P.
fd_sat3(C, E) :- sat3(C, E0), !, E = E0.
sat3(card(L, Lo, Hi), E) :- cnt(L, 0, N), ( N >= Lo, N =< Hi -> E = 1 ; E = 0 ).
sat3(cardv(L, V), E) :- cnt(L, 0, N), ( N =:= V -> E = 1 ; E = 0 ).
sat3(rin(X, L, U, B), E) :- ( X >= L, X =< U -> V = 1 ; V = 0 ), ( V =:= B -> E = 1 ; E = 0 ).
sat3(c(C), E) :- fd_sat(C, E).
cnt([], N, N).
cnt([C|L], N0, N) :- fd_sat(C, E), N1 is N0+E, cnt(L, N1, N).
bop(X, Y, C) :- gs_choice(9, K), bo(K, F), C =.. [F,X,Y].
bo(0, #<=>). bo(1, #\<=>). bo(2, ##). bo(3, #==>). bo(4, #\==>). bo(5, #/\). bo(6, #\/\). bo(7, #\/). bo(8, #\\/).
lit(X, L) :- gs_choice(2, K), ( K =:= 0 -> L = X ; L = (#\ X) ).
cop(X, Y, C) :- gs_choice(6, K), co(K, F), C =.. [F,X,Y].
co(0, #=). co(1, #\=). co(2, #<). co(3, #=<). co(4, #>). co(5, #>=).
fop(X, Y, C) :- gs_choice(6, K), fo(K, F), C =.. [F,X,Y].
fo(0, #=#). fo(1, #\=#). fo(2, #<#). fo(3, #=<#). fo(4, #>#). fo(5, #>=#).
b(m(0,1)). i(m(0,5)).
% t(K, Vars, Ranges, Goal, Oracle)
t(0, [A,B], [M,M], C, c(C)) :- b(M), lit(A, X), lit(B, Y), bop(X, Y, C).
t(1, [A,B,D], [M,M,M], C, c(C)) :- b(M), bop(B, D, E), bop(A, E, C).
t(2, [A,B,D], [M,M,M], C, c(C)) :- b(M), bop(A, B, E), lit(E, E1), gs_pick([0,1,D], Z), bop(E1, Z, C).
t(3, [B,X], [M,I], C, c(C)) :- b(M), i(I), gs_int(k, -1, 6, K), cop(X, K, R), gs_pick([#<=>, #\<=>, #==>, #\/, #/\], F), C =.. [F,B,R].
t(4, [B,X,Y], [M,m(0,3),m(1,4)], C, c(C)) :- b(M), cop(X, Y, R), gs_pick([(B #<=> R), (R #<=> B), (R #==> B), (#\ R #\/ B), (#\ (R #/\ B))], C).
t(5, [X,Y], [m(0,3),m(0,3)], C, c(C)) :- gs_int(k, 0, 3, K), cop(X, K, R), cop(Y, 2, S), bop(R, S, C).
t(6, [B,X,Y], [M,m(0,3),m(1,4)], C, c(C)) :- b(M), fop(X, Y, R), gs_pick([(B #<=> R), (R #==> B), (#\ R #\/ B)], C).
t(7, [A,B,D,N], [M,M,M,m(0,4)], fd_cardinality([A,B,D], N), cardv([A,B,D], N)) :- b(M).
t(8, [A,X,Y], [M,m(0,3),m(0,3)], fd_cardinality(L, [A,R,S], H), card([A,R,S], L, H)) :- b(M), gs_choice(4, L), gs_choice(4, H), gs_int(k, 0, 3, K), cop(X, K, R), S = (X #< Y).
t(9, [A,B,D], [M,M,M], G, card([A,B,D], L, H)) :- b(M), gs_pick([g(fd_at_least_one([A,B,D]),1,3), g(fd_at_most_one([A,B,D]),0,1), g(fd_only_one([A,B,D]),1,1)], g(G, L, H)).
t(10, [X,B], [m(0,7),M], fd_reified_in(X, L, U, B), rin(X, L, U, B)) :- b(M), gs_int(l, 0, 6, L), gs_int(u, 2, 8, U).
t(11, [X,Y,N], [m(0,3),m(0,3),m(0,3)], fd_cardinality(Cs, N), cardv(Cs, N)) :- Cs = [X #= 1, Y #> X, X+Y #= 4].
t(12, [X,Y], [m(0,4),m(0,4)], C, c(C)) :- cop(X+1, Y, R), cop(2*Y, X+3, S), gs_pick([(R #\/ S), (R #==> S), (R #<=> S), (#\ R #/\ #\ S), (R ## S)], C).
t(13, [A,B,D,F], [M,M,M,M], C, c(C)) :- b(M), bop(A, B, P), bop(D, F, Q), gs_pick([(P #<=> Q), (P #/\ Q), (P #\/ Q), (P #==> Q), (P ## Q)], C).
t(14, [B,X], [M,m(0,4)], (B #<=> R, B #<=> S), c((B #<=> R) #/\ (B #<=> S))) :- b(M), gs_int(k, 0, 4, K), cop(X, K, R), cop(X, 2, S).
