% control constructs, meta-called and as clauses of a dynamic predicate, against an independent evaluator
:- dynamic(h/2).
gs_scn :- T = t(X, Y, G), gs_bound(lo, Lo), gs_bound(hi, Hi), N is Hi-Lo, gs_choice(N, K0), K is K0+Lo, tpl(K, X, Y, G), gs_pick([0-0, 0-2, 1-0, 0-(-1)], X0-Y0), c01_oracle(G, X, Y, X0, Y0), gs_reach(0),
	\+ \+ (ini(X, Y, X0, Y0), run(G, X, Y, 'call/1 of a control construct: solutions, order of effects or exception')),
	assertz((h(X,Y) :- G)), copy_term(T, t(X1, Y1, _)),
	\+ \+ (ini(X1, Y1, X0, Y0), run(h(X1,Y1), X1, Y1, 'dynamic clause with a control construct: solutions, order of effects or exception')).
l(X, Y, G) :- gs_pick([true, fail, !, X = 1, m(X), e(X), throw(X), m(Y), X = Y, p(X), Y == 2], G).
q(X, Y, G) :- gs_pick([true, fail, !, m(X), e(3), throw(2)], G0), G0 = G, ( Y = Y -> true ; true ).
tpl(0, X, Y, (A, B, C)) :- l(X, Y, A), l(X, Y, B), l(X, Y, C).
tpl(1, X, Y, (A ; B)) :- l(X, Y, A), l(X, Y, B).
tpl(2, X, Y, (A -> B ; C)) :- l(X, Y, A), l(X, Y, B), l(X, Y, C).
tpl(3, X, Y, (A *-> B ; C)) :- l(X, Y, A), l(X, Y, B), l(X, Y, C).
tpl(4, X, Y, ((A, B -> C) ; e(5))) :- l(X, Y, A), q(X, Y, B), l(X, Y, C).
tpl(5, X, Y, (\+ (A, B), C)) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(6, X, Y, ((A ; B), C)) :- l(X, Y, A), l(X, Y, B), l(X, Y, C).
tpl(7, X, Y, (A, (B ; C))) :- l(X, Y, A), l(X, Y, B), l(X, Y, C).
tpl(8, X, Y, (call((A, B)), C)) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(9, X, Y, (once((A, B)), C)) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(10, X, Y, (catch((A, B), P, C), e(X))) :- l(X, Y, A), l(X, Y, B), gs_pick([1, 2, Y], P), q(X, Y, C).
tpl(11, X, Y, (catch(A, Y, B), C)) :- l(X, Y, A), q(X, Y, B), l(X, Y, C).
tpl(12, X, Y, (catch((catch(A, 1, B), C), Y, e(Y)))) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(13, X, Y, (forall(A, B), C)) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(14, X, Y, ((m(X), A -> B ; C), m(Y))) :- q(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(15, X, Y, (m(Y), (A -> (B ; C) ; q3), e(Y))) :- l(X, Y, A), l(X, Y, B), q(X, Y, C), gs_assume(0).
tpl(16, X, Y, ((A *-> B, C), m(Y))) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(17, X, Y, (m(X), \+ \+ (A, B), e(X))) :- l(X, Y, A), l(X, Y, B).
tpl(18, X, Y, ((A, ! ; B), e(X), C)) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(19, X, Y, ((A -> B), ! ; C)) :- l(X, Y, A), l(X, Y, B), l(X, Y, C).
tpl(20, X, Y, (\+ (A -> B ; C))) :- l(X, Y, A), l(X, Y, B), l(X, Y, C).
tpl(21, X, Y, (call(!), A, call((fail ; B)), C)) :- q(X, Y, A), l(X, Y, B), l(X, Y, C).
tpl(22, X, Y, ((m(X), e(X) ; A), B, m(Y), C)) :- q(X, Y, A), q(X, Y, B), q(X, Y, C).
tpl(23, X, Y, ((A ; B -> C ; e(6)), ev2(X, Y))) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(24, X, Y, ((A, m(Y), B *-> C ; e(5)), e(X))) :- l(X, Y, A), q(X, Y, B), l(X, Y, C).
tpl(25, X, Y, (m(X), (m(Y), A *-> B ; C), e(X))) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(26, X, Y, ((A ; B *-> C ; e(4)), e(Y))) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(27, X, Y, ((m(X) *-> (A *-> B ; e(4)) ; e(5)), C)) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(28, X, Y, (catch((m(X), A), Y, e(8)), m(Y), B, C)) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(29, X, Y, (catch((m(X), m(Y), e(X)), 2, e(8)), A, B, C)) :- l(X, Y, A), q(X, Y, B), q(X, Y, C).
tpl(30, X, Y, (catch(catch((A ; B), 2, e(8)), Y, e(9)), C, fail ; e(X))) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
tpl(31, X, Y, (call((p(X), A ; B)), C ; e(Y))) :- l(X, Y, A), l(X, Y, B), q(X, Y, C).
