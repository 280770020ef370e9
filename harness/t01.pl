% unification against an independent one: success, most general unifier, nothing left behind on failure
:- foreign(t01_enc(term,term,term,-integer)).
:- foreign(t01_same(term)).

gs_scn :- gs_choice(5, S), V = v(A,B,C,D), scn(S, V, A, B, C, D, X, Y), t01_enc(V, X, Y, R), gs_out(R),
	( R =:= 2 -> gs_reach(2), occ(V, X, Y) ; all(R, V, X, Y) ).

cfg(L, t(L, [a, []], -1152921504606846976, 1152921504606846975, [f/1, g/2, '.'/2])).

scn(0, _, A, B, _, _, X, Y) :- cfg([A,B], C), gs_t(1, C, X), gs_t(2, t([A,B], [a], 0, 1, [f/1, g/2]), Y).
scn(1, _, A, B, C, D, X, Y) :- % a row of variables against a row of terms
	X = r(A,B,C,D), cfg([A,B,C], K), K = t(L, As, Lo, Hi, _), K0 = t(L, As, Lo, Hi, []), gs_t(0, K0, P), gs_t(0, K0, Q), gs_t(0, K0, R), gs_t(0, K0, S), Y = r(P,Q,R,S).
scn(2, _, A, B, C, D, X, Y) :- % aliased variables and deep structure
	K = t([A,B,C], [a], 0, 3, []), gs_t(0, K, P), gs_t(0, K, Q), gs_t(0, K, R), gs_t(0, K, S), gs_pick([[P,Q|R], g(f(P),g(Q,R)), f(g(f(P),[Q,R]))], X), gs_pick([[S,D|C], g(D,g(S,B)), f(g(S,[B|D])), g(f(S),D)], Y).
scn(3, _, A, B, C, _, X, Y) :- % chains: the variables are bound to each other before the unification
	K = t([A,B,C], [a], 0, 3, [f/1]), gs_t(0, K, P), gs_pick([A,B,C], Q), X0 = g(A, g(B, C)), chain(Q, P), gs_t(1, K, T), gs_t(1, K, U), gs_pick([g(T, g(U, U)), g(T, U), g(U, g(T, A))], Y), X = X0.
scn(4, _, A, B, _, _, X, Y) :- gs_int(f, 0, 30, F), gs_flt(F, P), gs_int(h, 0, 30, H), gs_flt(H, Q), gs_pick([P, f(P), [P|A]], X), gs_pick([Q, f(Q), [Q|B], 1, 0], Y).

chain(Q, P) :- var(Q), !, Q = P.
chain(_, _).

all(R, V, X, Y) :-
	gs_reach(R), gs_snap(0, s(V, X, Y)),
	one(X = Y, R, V, X, Y), one(inl(X, Y), R, V, X, Y), one(unify_with_occurs_check(X, Y), R, V, X, Y),
	one(hd(X, Y), R, V, X, Y), one(hd2(f(X,k), f(Y,k)), R, V, X, Y), one(bod(X, Y), R, V, X, Y), one(cls(X, Y), R, V, X, Y),
	( X \= Y -> ( R =:= 0 -> true ; gs_fail('\\= succeeds on unifiable terms') ) ; R =:= 1 -> true ; gs_fail('\\= fails on non-unifiable terms') ),
	unch(V, X, Y, '\\='),
	( \=(X, Y) -> ( R =:= 0 -> true ; gs_fail('called \\= succeeds on unifiable terms') ) ; true ),
	( R =:= 0, subsumes_term(X, Y) -> gs_fail('subsumes_term/2 succeeds on non-unifiable terms') ; true ), unch(V, X, Y, subsumes_term).

occ(V, X, Y) :- gs_snap(0, s(V, X, Y)), ( unify_with_occurs_check(X, Y) -> gs_fail('unify_with_occurs_check/2 builds a cyclic term') ; true ), unch(V, X, Y, unify_with_occurs_check).

one(G, R, V, X, Y) :- \+ one1(G, R, V, X, Y), unch(V, X, Y, 'unification').
one1(G, R, V, X, Y) :-
	( call(G) ->
	      ( R =:= 1 -> true ; functor(G, F, _), gs_out(F), gs_fail('unification succeeds on non-unifiable terms') ),
	      ( t01_same(V) -> true ; gs_fail('the unifier is not the most general one') ), ( gs_cmp(X, Y, 0) -> true ; gs_fail('terms differ after unification') )
	; R =:= 1 -> functor(G, F, _), gs_out(F), gs_fail('unification fails on unifiable terms') ), fail.
unch(V, X, Y, W) :- gs_same(0, s(V, X, Y), E), ( E =:= 1 -> true ; gs_out(W), gs_fail('a variable changed after failure or backtracking') ).

inl(X, Y) :- X = Y.
hd(X, X).
hd2(f(X,K), f(X,K)).
bod(X, Y) :- Z = g(X,Z2,b), Z = g(Y,W,b), Z2 = W.
:- dynamic(cl/3).
cl(X, X, _).
cls(X, Y) :- clause(cl(X, Y, _), true).
