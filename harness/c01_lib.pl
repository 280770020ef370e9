:- foreign(c01_oracle(term,term,term,+integer,+integer)).
:- foreign(c01_start).
:- foreign(c01_ev(term)).
:- foreign(c01_sol(term,term)).
:- foreign(c01_exc(term)).
:- foreign(c01_cmp).
e(X) :- c01_ev(X).
ev2(X, Y) :- c01_ev(X), c01_ev(Y).
m(1). m(2). m(3).
p(1).
p(X) :- e(7), !, X = 2.
p(3).
run(G, X, Y, M) :- c01_start, catch(( \+ run1(G, X, Y) ), E, c01_exc(E)), ( c01_cmp -> true ; gs_fail(M) ).
run1(G, X, Y) :- call(G), c01_sol(X, Y), fail.
ini(X, Y, X0, Y0) :- ( X0 =:= 0 -> true ; X = X0 ), ( Y0 =:= 0 -> true ; Y0 =:= -1 -> Y = X ; Y = Y0 ).
