% domains of FD variables
gs_scn :- gs_choice(5, K), gs_reach(K), scn(K).
:- discontiguous(scn/1).
% sequences of domain operations against their set meaning
scn(0) :- gs_pick([0,60,120], B), gs_pick([0,1,5,6], K1), o(K1, B, O1, X), dop(B, O2, X), dop3(B, O3, X), gs_int(p, -1, 8, P0), P is B+P0, sat([O1,O2,O3], P, E),
	gs_try(app([O1,O2,O3]), R), fin(R, X, [O1,O2,O3], P, E).
fin(no, _, _, _, E) :- !, ( E =:= 0 -> true ; gs_fail('domain operations fail although a value remains') ).
fin(yes, X, Os, P, E) :- !, chk(X, Os, P, E).
fin(R, _, _, _, _) :- gs_out(R), gs_fail('a domain operation raises an exception').
chk(X, Os, P, E) :- ( \+ X = P -> ( E =:= 0 -> true ; gs_fail('a value of the domain is rejected') ) ; E =:= 1 -> true ; gs_fail('a value outside the domain is accepted') ),
	fd_min(X, Mi), fd_max(X, Ma), fd_size(X, S), fd_dom(X, L),
	sat(Os, Mi, E1), ck(E1 =:= 1, 'fd_min gives a value outside the domain'), sat(Os, Ma, E2), ck(E2 =:= 1, 'fd_max gives a value outside the domain'),
	( E =:= 1 -> ck((P >= Mi, P =< Ma), 'a value below fd_min or above fd_max'), ck(memb(P, L), 'fd_dom lacks a value') ; ck(\+ memb(P, L), 'fd_dom has a wrong value') ),
	length(L, N), ck(N =:= S, 'fd_size is not the length of fd_dom'), ck(asc(L), 'fd_dom not ascending'), L = [Mi1|_], ck(Mi1 =:= Mi, 'fd_min is not the first of fd_dom'),
	( integer(X) -> ck(S =:= 1, 'integer of size > 1') ; ck(fd_var(X), 'not an FD variable'), ck(S > 1, 'singleton domain not instantiated') ).
memb(P, [X|L]) :- ( P =:= X -> true ; memb(P, L) ).
asc([_]).
asc([X,Y|L]) :- X < Y, asc([Y|L]).
dop(B, O, X) :- gs_choice(7, K), o(K, B, O, X).
dop3(B, O, X) :- gs_bound(third, N), gs_choice(N, K), o3(K, B, O, X).
o3(0, B, ne(X,V), X) :- V is B+4.
o3(1, B, le(X,V), X) :- V is B+5.
o3(2, B, O, X) :- dop(B, O, X).
o(0, B, r(X,L,U), X) :- v(B, 0, 3, L), v(B, 2, 5, U).
o(1, B, l(X,[A,C,D]), X) :- w(B, [0,4], A), w(B, [5], C), w(B, [7,3], D).
o(2, B, ne(X,V), X) :- v(B, 0, 7, V).
o(3, B, ge(X,V), X) :- v(B, 0, 6, V).
o(4, B, le(X,V), X) :- v(B, 0, 7, V).
o(5, B, u(X,_,L,U), X) :- v(B, 1, 2, L), v(B, 4, 6, U).
o(6, B, ul(X,_,[A,C,D]), X) :- w(B, [2], A), w(B, [4,7], C), w(B, [6], D).
v(B, L, U, V) :- gs_int(v, L, U, V0), V is B+V0.
w(B, L, V) :- gs_pick(L, V0), V is B+V0.
app([]).
app([O|Os]) :- ap(O), app(Os).
ap(r(X,L,U)) :- fd_domain(X, L, U).
ap(l(X,L)) :- fd_domain(X, L).
ap(ne(X,V)) :- X #\= V.
ap(ge(X,V)) :- X #>= V.
ap(le(X,V)) :- X #=< V.
ap(u(X,Y,L,U)) :- fd_domain(Y, L, U), X = Y.
ap(ul(X,Y,L)) :- fd_domain(Y, L), Y = X.
sat([], P, E) :- ( P >= 0 -> E = 1 ; E = 0 ).
sat([O|Os], P, E) :- sa(O, P, E0), ( E0 =:= 0 -> E = 0 ; sat(Os, P, E) ).
sa(r(_,L,U), P, E) :- ( P < L -> E = 0 ; P > U -> E = 0 ; E = 1 ).
sa(l(_,L), P, E) :- ( memb(P, L) -> E = 1 ; E = 0 ).
sa(ne(_,V), P, E) :- ( P =:= V -> E = 0 ; E = 1 ).
sa(ge(_,V), P, E) :- ( P < V -> E = 0 ; E = 1 ).
sa(le(_,V), P, E) :- ( P > V -> E = 0 ; E = 1 ).
sa(u(_,_,L,U), P, E) :- sa(r(_,L,U), P, E).
sa(ul(_,_,L), P, E) :- sa(l(_,L), P, E).
% unification with integers of the whole range
scn(1) :- gs_choice(4, K), gs_int(p, -576460752303423488, 576460752303423487, P), gs_int(u, 1, 300, U), fd_domain(X, 1, U), gs_try(uni(K, X, P), R), ( P >= 1, P =< U -> ck(R == yes, 'a value of the domain does not unify') ; ck(R == no, 'an integer outside the domain unifies') ).
uni(0, X, P) :- X = P.
uni(1, X, P) :- f(X, a) = f(P, a).
uni(2, X, P) :- arg(1, f(P), X).
uni(3, X, P) :- [P|_] = [X].
% two variables made equal have the intersection, an empty intersection fails
scn(2) :- gs_int(a, 0, 4, A), gs_int(b, 3, 70, B), gs_int(c, 0, 66, C), gs_int(d, 2, 70, D), gs_int(p, 0, 72, P), gs_assume1(A =< B), gs_assume1(C =< D), fd_domain(X, A, B), fd_domain(Y, C, D), Z #= X,
	gs_try(X = Y, R), ( P >= A, P =< B, P >= C, P =< D -> ck(R == yes, 'unification fails on a non-empty intersection'), X = P, ck(Y == P, 'the variables differ'), ck(Z == P, 'a constraint on the variable was lost') ; R == no -> ck((A > D ; C > B), 'unification of compatible domains fails') ; no(X = P, 'accepts a value outside the intersection') ).
gs_assume1(G) :- ( call(G) -> true ; gs_assume(0) ).
% domains are restored on backtracking
scn(3) :- gs_int(u, 4, 9, U), fd_domain(X, 0, U), fd_domain(Y, 1, 6), Z #= X + Y, gs_int(k, 0, 8, V), gs_pick([X #\= 2, fd_domain(X, [0,3,4]), fd_domain(X, 1, 3), X #>= 2], O1), call(O1), st([X,Y,Z], S0),
	gs_pick([X #\= V, X = V, Y #> V, Z #=< V, X = Y, fd_domain(Y, [1,V,5]), Z #\= V, X #=# V, X #< Y], O2), ( call(O2), gs_reach(10), fail ; true ), st([X,Y,Z], S1), ck(S0 == S1, 'a domain is not restored on backtracking'),
	( call(O2), catch((X #\= 3, throw(b)), b, true), st([X,Y,Z], _), fail ; true ), st([X,Y,Z], S2), ck(S0 == S2, 'a domain is not restored after a ball').
st([], []).
st([X|L], [D-S|T]) :- fd_dom(X, D), fd_size(X, S), st(L, T).
% type tests and errors
scn(4) :- gs_int(u, 2, 9, U), fd_domain(X, 1, U), gs_pick([q(fd_var(X),y), q(generic_var(X),y), q(var(X),n), q(nonvar(X),y), q(integer(X),n), q(non_fd_var(X),n), q(non_generic_var(X),n), q(fd_var(U),n), q(fd_var(_),n), q(generic_var(_),y), q(non_fd_var(U),y), q(fd_domain(_,U,1),n), q(fd_domain(_,a,1),e(type_error(integer,a))), q(fd_domain(_,_,1),e(instantiation_error)), q(fd_domain(a,0,1),i), q(fd_min(_,_),i), q(fd_max(U,U),y), q(fd_domain(_,[a]),e(type_error(integer,a))), q(fd_domain(_,_),e(instantiation_error))], q(G, A)),
	gs_try(G, R), ( A == y -> ck(R == yes, type_test) ; A == n -> ck(R == no, type_test_no) ; A == i -> true ; A = e(E) -> ( R = err(E1), E1 == E -> true ; gs_out(R), gs_out(G), gs_fail('wrong error') ) ).
