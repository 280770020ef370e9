% arithmetic FD constraints: for every probe, the constraint store accepts the assignment exactly when it satisfies the constraint
:- discontiguous(t/4).
gs_scn :- gs_bound(lo, Lo), gs_bound(hi, Hi), N is Hi-Lo, gs_choice(N, K0), K is K0+Lo, ( t(K, Vs, M, C) -> true ; gs_fail(table) ), gs_reach(0), copy_term(Vs-C, Ps-CP), bnds(K, Vs, M, Ls, Us), prb(K, Ps, M), gs_bound(ords, NO), gs_choice(NO, O), fd_ins(Ps, Ls, Us, I), ( K >= 40 -> nneg(CP) ; true ), ( I =:= 1 -> fd_sat(CP, E) ; E = 0 ),
	gs_try(go(O, C, Vs, Ls, Us, Ps), R), ( E =:= 1 -> ( R == yes -> true ; gs_out(R), gs_out(C), gs_fail('the solver rejects a solution of the constraint') ) ; R == no -> true ; gs_out(R), gs_out(C), gs_fail('the solver accepts an assignment that violates the constraint') ).
bnds(K, _, M, Ls, Us) :- K >= 34, K < 40, !, xb(M, Ls, Us).
bnds(K, Vs, M, Ls, Us) :- ( gs_bound(sym, 1) ; sy(K) ), !, sbn(Vs, M, Ls, Us).
bnds(_, Vs, M, Ls, Us) :- gs_choice(3, B), kbn(Vs, B, M, Ls, Us).
sy(0). sy(1). sy(2). sy(30).
kbn([], _, _, [], []).
kbn([_|Vs], B, M, [L|Ls], [U|Us]) :- L is B-(B>>1), U is M-(B>>1), B1 is (B*3+B>>1) mod 4, kbn(Vs, B1, M, Ls, Us).
sbn([], _, [], []).
sbn([_|Vs], M, [L|Ls], [U|Us]) :- gs_int(l, 0, 2, L), M1 is M-2, gs_int(u, M1, M, U), sbn(Vs, M, Ls, Us).
prb(K, Ps, M) :- K >= 34, K < 40, !, xp(Ps, M).
prb(K, Ps, M) :- K >= 40, !, prc(Ps, M).
prb(K, [P|Ps], M) :- gs_int(p, 0, M, P0), ( cp(K) -> gs_conc(P0, P) ; P = P0 ), prs(Ps, M).
cp(10). cp(17). cp(31). cp(32). cp(22). cp(23). cp(25). cp(24). cp(27). cp(11). cp(12).
prs([], _).
prs([P|Ps], M) :- gs_int(p, 0, M, P), prs(Ps, M).
go(0, C, Vs, Ls, Us, Ps) :- fd_doms(Vs, Ls, Us), call(C), fd_asg(Vs, Ps).
go(1, C, Vs, Ls, Us, Ps) :- fd_doms(Vs, Ls, Us), asg1(Vs, Ps), call(C), fd_asg(Vs, Ps).
go(2, C, Vs, Ls, Us, Ps) :- fd_asg(Vs, Ps), fd_doms(Vs, Ls, Us), call(C).
go(3, C, Vs, Ls, Us, Ps) :- fd_doms(Vs, Ls, Us), call(C), rasg(Vs, Ps).
asg1([P|_], [P|_]).
rasg([], []).
rasg([V|Vs], [P|Ps]) :- rasg(Vs, Ps), V = P.
op(0, #=). op(1, #\=). op(2, #<). op(3, #=<). op(4, #>). op(5, #>=). op(6, #=#). op(7, #\=#). op(8, #<#). op(9, #=<#). op(10, #>#). op(11, #>=#).
c(X) :- gs_choice(6, K), X is K-3.
o(A, B, C) :- gs_choice(12, K), op(K, F), C =.. [F,A,B].
e(A, B, C) :- gs_choice(2, K), op6(K, F), C =.. [F,A,B].
op6(0, #=). op6(1, #=#).
t(0, [X], 6, C) :- gs_int(c, -3, 8, K), o(X, K, C).
t(1, [X,Y], 6, C) :- o(X, Y, C).
t(2, [X,Y], 6, C) :- gs_int(c, -3, 3, K), o(X+K, Y, C).
t(3, [X,Y], 6, C) :- c(K), o(K*X, Y, C).
t(4, [X,Y], 6, C) :- c(A), gs_pick([-2,1,3], B), o(A*X+B*Y, 4, C).
t(5, [X,Y,Z], 4, C) :- o(X+Y, Z, C).
t(6, [X,Y,Z], 3, C) :- c(A), o(A*X+Y-2*Z, 1, C).
t(7, [X,Y,Z], 4, C) :- c(A), e(X+Y+Z, 5+A, C).
t(8, [X,Y,Z,T], 3, C) :- c(A), e(X+Y-A, Z+T, C).
t(9, [X,Y,Z], 4, C) :- e(X*Y, Z, C).
t(10, [X,Y], 5, C) :- o(X*X, Y, C).
t(11, [X,Y,Z], 5, C) :- e(X//Y, Z, C).
t(12, [X,Y,Z], 5, C) :- e(X rem Y, Z, C).
t(13, [X,Y,Z], 5, C) :- e(X/Y, Z, C).
t(14, [X,Y,Z], 5, C) :- e(min(X,Y), Z, C).
t(15, [X,Y,Z], 5, C) :- e(max(X,Y), Z, C).
t(16, [X,Y,Z], 5, C) :- e(dist(X,Y), Z, C).
t(17, [X,Y], 3, C) :- gs_choice(5, K), o(X**K, Y, C).
t(18, [X,Y], 4, C) :- gs_choice(4, K), o(K**X, Y, C).
t(19, [X,Y,Z,R], 4, C) :- e(quot_rem(X,Y,R), Z, C).
t(20, [X,Z], 7, C) :- gs_choice(5, K), e(X//K, Z, C).
t(21, [X,Z], 7, C) :- gs_choice(5, K), e(X rem K, Z, C).
t(22, [X,Z], 7, C) :- gs_choice(9, K), e(K//X, Z, C).
t(23, [X,Z], 7, C) :- gs_choice(9, K), e(K rem X, Z, C).
t(24, [X,Z], 7, C) :- gs_choice(9, K), gs_pick([min(X,K), max(K,X), dist(X,K), dist(K,X), X/K, K/X, min(K,X)], E), e(E, Z, C).
t(25, [X,Y,Z], 3, C) :- o(X*Y, Z+1, C).
t(26, [X,Y,Z], 4, C) :- o(min(X,Y)+max(Y,Z), 5, C).
t(27, [X,Y,Z], 3, C) :- o(X+Y*Z, 6, C).
t(28, [X,Y], 5, C) :- o(dist(X,Y), 2, C).
t(29, [X,Y], 6, C) :- c(A), gs_pick([-2,1,3], B), o(A*X, B*Y, C).
t(30, [X,Y], 6, C) :- gs_int(c, -3, 8, A), o(A-X, -(Y), C).
t(31, [X,Y,Z], 3, C) :- o((X+1)*(Y+Z), 6, C).
t(32, [X], 6, C) :- c(A), o(X*X-A*X, 6, C).
t(33, [X,Y], 6, C) :- o(X//2+Y rem 3, 3, C).
% values over the whole range of FD variables: the bounds and the probe values are given by the scheme (only operators that work on bounds: a domain with holes keeps no value above the vector size)
xb([], [], []).
xb([m(L,U,_)|M], [L|Ls], [U|Us]) :- xb(M, Ls, Us).
xp([], []).
xp([P|Ps], [m(_,_,P)|M]) :- xp(Ps, M).
mx(268435455).
% the value of every function is itself an FD value
ok(m(_,_,P), E) :- mx(M), ( P^E =< M -> true ; gs_assume(0) ).
oka(A, m(_,_,P)) :- mx(M), ( A^P =< M -> true ; gs_assume(0) ).
okp(m(_,_,P), m(_,_,Q)) :- mx(M), ( P*Q =< M -> true ; gs_assume(0) ).
dl(D) :- gs_choice(3, K), D is K-1.
nw(N, m(L,U,P)) :- dl(D), P is N+D, mx(Mx), ( P =< Mx -> true ; gs_assume(0) ), L is N-2, U is N+2.
nr(N, m(L,U,P)) :- dl(D), P is N+D, mx(Mx), ( P =< Mx -> true ; gs_assume(0) ), gs_choice(2, W), ( W =:= 0 -> L = 0, mx(U) ; L is N-2, U is N+2 ).
t(34, [X,Y], [MX,MY], C) :- gs_pick([2,11,12,181,1000,5793,16383], N), gs_pick([2,3], E), Q is N^E, mx(Mx), ( Q < Mx -> true ; gs_assume(0) ), nr(N, MX), ok(MX, E), nr(Q, MY), gs_pick([X**E #= Y, Y #= X**E, X**E #=< Y, X**E #>= Y], C).
t(35, [X,Y], [MX,MY], C) :- gs_pick([2-7,2-27,3-16,10-8,16384-1,646-2,16-6], A-N), Q is A^N, nr(N, MX), oka(A, MX), nr(Q, MY), gs_pick([A**X #= Y, A**X #=< Y, Y #=< A**X], C).
t(36, [X,Y,Z], [MX,MY,MZ], C) :- gs_pick([2-60,127-128,1-70000,16383-16384,3-89478485], N-M), nw(N, MX), nw(M, MY), okp(MX, MY), Q is N*M, nw(Q, MZ), gs_pick([X*Y #= Z, Z #= Y*X, Z/X #= Y, Z//X #= Y], C).
t(37, [X,Y,Z], [MX,MY,MZ], C) :- gs_pick([100000000-7,268435454-16384,1000-1000,70000-70001], N-M), nw(N, MX), nw(M, MY), gs_pick([q,r], W), ( W == q -> Q is N//M, C = (X//Y #= Z) ; Q is N rem M, C = (X rem Y #= Z) ), nw(Q, MZ).
t(38, [X,Y,Z], [m(0,Mx,P),m(0,Mx,Q),m(0,Mx,R)], C) :- mx(Mx), gs_pick([0,100000,2097000], B), P1 is B+7, gs_int(p, B, P1, P), gs_int(q, B, P1, Q), dl(D), gs_pick([c(3,1),c(100,-1),c(1,77)], c(A1,B1)), R is A1*P+B1*Q+D, gs_pick([#=,#<,#=<,#>,#>=], F), C =.. [F,A1*X+B1*Y,Z].
t(39, [X,Y,Z], [m(0,Mx,P),m(5,Mx,Q),m(0,Mx,R)], C) :- mx(Mx), gs_int(p, 0, Mx, P), gs_int(q, 0, Mx, Q), gs_int(r, 0, Mx, R), gs_pick([min(X,Y),max(X,Y)], E), C = (E #= Z).
% linear sub-expressions inside functions, with values that are not negative
nneg(C) :- arg(1, C, F), F =.. [_,A,B], fd_e(A, X), fd_e(B, Y), ( X >= 0, Y >= 0 -> true ; gs_assume(0) ).
sube(X, Y, S) :- gs_pick([0,2], A), sub1(A, X, Y, S).
sub1(A, X, Y, S) :- A1 is A+1, gs_pick([A1-X,X-A,X-Y,A1-X-Y,2*X-Y,A1+X-Y,Y-2*X+A,3-A*X,-(X)+0*Y], S).
t(40, [X,Y,Z], 2, C) :- sube(X, Y, S), gs_pick([min(S,Y),max(Y,S),S*Y,dist(S,Y)], F), e(F, Z, C).
t(41, [X,Y,Z], 2, C) :- sube(X, Y, S), gs_pick([S//Z,S rem Z,Y//S,S/Z,S*S,Y rem S], F), e(F, Y, C).
t(42, [X,Y,Z], 2, C) :- sub1(1, X, Y, S), gs_pick([Y-Z,3-Y-Z,-(Y)], T), gs_pick([S*T,min(T,S)], F), e(F, 2, C).
prc([], _).
prc([P|Ps], M) :- gs_int(p, 0, M, P0), gs_conc(P0, P), prc(Ps, M).
