% compiled programs against the evaluator (control), the unification oracle (indexing) and a clause-by-clause interpretation
:- discontiguous(scn/1).
:- op(700, xfx, .=.).
:- foreign(t01_enc(term,term,term,-integer)).
:- foreign(c02_start(+integer)).
:- foreign(c02_log(term)).
:- foreign(c02_same).
:- dynamic(dp/1).
gs_scn :- gs_choice(3, S), gs_reach(S), scn(S).

scn(0) :- gs_bound(nctl, N), gs_choice(N, K), ktab(K, t(X,Y,G), H, X, Y), gs_pick([0-0, 0-2, 1-0, 3-1, 0-(-1)], X0-Y0), c01_oracle(G, X, Y, X0, Y0),
	\+ \+ (ini(X, Y, X0, Y0), run(H, X, Y, 'compiled clause with a control construct: solutions, order of effects or exception')).

scn(1) :- gs_choice(12, K), ipred(K, X, J, G, D), qarg(K, X), gs_pick([0,1], W), ( W =:= 0 -> true ; gs_pick([0,1,2,5], J) ),
	expected(K, X, J, E), findall(J, G, A), gs_out(E), ( A == E -> true ; gs_out(A), gs_fail('clauses selected by indexing of facts') ),
	findall(J, D, B), ( B == E -> true ; gs_out(B), gs_fail('clauses selected by indexing of rules') ),
	( G -> true ; true ), ck(( E = [] -> \+ G ; E = [J1|_], J == J1 ), 'first clause selected').
qarg(K, X) :- ( memk(K, [0,9,5]) -> gs_pick([i,i,v,a,c], T) ; gs_pick([v,i,a,c,l,f], T) ), qk(T, X).
memk(X, [X|_]) :- !.
memk(X, [_|L]) :- memk(X, L).
qk(v, _).
qk(i, X) :- gs_int(key, -1152921504606846976, 1152921504606846975, X).
qk(a, X) :- gs_pick([a, b, ab, [], '', 'A', '.', {}, foo, '\n', c, zzz, f], X).
qk(c, X) :- gs_pick([f, g, h, '.', z], F), gs_choice(3, N0), N is N0+1, functor(X, F, N), gs_pick([_, a, b, c], A), arg(1, X, A).
qk(l, X) :- gs_pick([[_|_], [a|_], [a], [b], [a,b], [_]], X).
qk(f, X) :- gs_pick([1.5, 2.5, 1.0, 0.0, -0.0, 3.25], X).
expected(K, X, J, L) :- findall(A-I, itab(K, A, I), T), filt(T, X, J, L).
filt([], _, _, []).
filt([A-I|T], X, J, L) :- ( var(J) -> C = A-I, D = X-k ; C = A-I, D = X-J ), ( var(J) -> t01_enc(v(X), A, X, R) ; t01_enc(v(X), C, D, R) ), ( R =:= 1 -> L = [I|M] ; L = M ), filt(T, X, J, M).

scn(2) :- gs_bound(ncl, N), gs_choice(N, K), ctab(K, Hd, Bd, X1, X2, X3, G), ag(X1, P, Q), gs_bound(deep, Dp), ( Dp =:= 1 -> ag(X2, P, Q), gs_pick([P, Q, f(P), _], X3) ; gs_pick([P, Q, a, f(P), [P|Q]], X2), gs_pick([Q, _], X3) ),
	t01_enc(v(X1,X2,X3), Hd, c(X1,X2,X3), UR), ( UR =:= 2 -> gs_assume(0) ; true ),
	c02_start(0), ( Hd = c(X1, X2, X3), acy(Hd), catch(call(Bd), Err, (xl(Err), fail)), c02_log(s(X1, X2, X3, P, Q)), fail ; true ),
	c02_start(1), ( catch(G, Err2, (xl(Err2), fail)), c02_log(s(X1, X2, X3, P, Q)), fail ; true ),
	( c02_same -> true ; gs_out(K), gs_fail('a compiled clause computes something else than its source') ),
	G =.. [F|_], dq(F, K), c02_start(1), Hd2 =.. [F,X1,X2,X3], ( catch(dcall(F, Hd2), Err3, (xl(Err3), fail)), c02_log(s(X1, X2, X3, P, Q)), fail ; true ),
	( c02_same -> true ; gs_out(K), gs_fail('an asserted clause computes something else than its source') ).
dq(_, K) :- ctab(K, Hd, Bd, _, _, _, _), assertz((dp(Hd) :- Bd)).
dcall(_, H) :- H =.. [_|L], C =.. [c|L], dp(C).
xl(error(E, _)) :- !, c02_log(E).
xl(B) :- c02_log(B).
ag(X, P, Q) :- gs_pick([P, Q, a, i, f(P), [P|Q], [a,Q], g(Q,P), g(1,f(P))], T), ( T == i -> gs_int(n, -4, 3, X) ; X = T ).
w(X) :- c02_log(X).
w(X, Y) :- c02_log(X-Y).
s(X, Y) :- unify_with_occurs_check(X, Y).
X .=. Y :- X = Y, acy(X).
ua(N, T, X) :- arg(N, T, X), acy(T).
acy(X) :- ( acyclic_term(X) -> true ; gs_assume(0) ). % cyclic terms are outside the domain
n(1). n(a). n(f(_)). n([b]).
q(_, a, _).
q(X, Y, Z) :- unify_with_occurs_check(Y, f(X)), w(Z).
q(X, Y, Z) :- unify_with_occurs_check(Z, [X,Y|_]).
