% integer evaluation is exact or the standard error
:- foreign(a01_chk(+integer,+integer,+integer,+integer,+integer,+integer)).
:- foreign(a01_succ(+integer,+integer,+integer,+integer,+integer)).
:- foreign(a01_spec(+integer,-integer,-integer)).

gs_scn :- gs_choice(2, 1), !, gs_int(x, -1152921504606846976, 1152921504606846975, X), gs_int(y, -1152921504606846976, 1152921504606846975, Y), gs_choice(4, M), succ_scn(M, X, Y).
gs_scn :- gs_bound(nops, N), gs_choice(N, Op), gs_choice(3, Route),
	a01_spec(Op, X, Y),
	catch((ev(Route, Op, X, Y, Z), R = v(Z)), E, R = E),
	code(R, X, C, V),
	gs_out(R),
	gs_reach(C),
	a01_chk(Op, X, Y, C, V, Route).

code(v(Z), _, C, V) :- !, ( integer(Z) -> C = 0, V = Z ; C = 20, V = 0 ).
code(error(evaluation_error(int_overflow), _), _, 1, 0) :- !.
code(error(evaluation_error(zero_divisor), _), _, 2, 0) :- !.
code(error(evaluation_error(undefined), _), _, 3, 0) :- !.
code(error(type_error(float, W), _), X, C, 0) :- !, ( W == X -> C = 4 ; C = 21 ).
code(error(domain_error(not_less_than_zero, W), _), X, C, 0) :- !, ( W == X -> C = 5 ; C = 22 ).
code(_, _, 23, 0).

ev(0, Op, X, Y, Z) :- ei(Op, X, Y, Z).
ev(1, Op, X, Y, Z) :- ex(Op, X, Y, E), Z is E.
ev(2, Op, X, Y, Z) :- ef(Op, X, Y, Z).

ei(0, X, Y, Z) :- Z is X+Y.
ei(1, X, Y, Z) :- Z is X-Y.
ei(2, X, Y, Z) :- Z is X*Y.
ei(3, X, Y, Z) :- Z is X//Y.
ei(4, X, Y, Z) :- Z is X div Y.
ei(5, X, Y, Z) :- Z is X rem Y.
ei(6, X, Y, Z) :- Z is X mod Y.
ei(7, X, Y, Z) :- Z is X/\Y.
ei(8, X, Y, Z) :- Z is X\/Y.
ei(9, X, Y, Z) :- Z is xor(X,Y).
ei(10, X, Y, Z) :- Z is X<<Y.
ei(11, X, Y, Z) :- Z is X>>Y.
ei(12, X, Y, Z) :- Z is min(X,Y).
ei(13, X, Y, Z) :- Z is max(X,Y).
ei(14, X, Y, Z) :- Z is gcd(X,Y).
ei(15, X, Y, Z) :- Z is X^Y.
ei(16, X, _, Z) :- Z is -X.
ei(17, X, _, Z) :- Z is inc(X).
ei(18, X, _, Z) :- Z is dec(X).
ei(19, X, _, Z) :- Z is \X.
ei(20, X, _, Z) :- Z is abs(X).
ei(21, X, _, Z) :- Z is sign(X).
ei(22, X, _, Z) :- Z is lsb(X).
ei(23, X, _, Z) :- Z is msb(X).
ei(24, X, _, Z) :- Z is popcount(X).
ei(25, X, _, Z) :- Z is +(X).
ei(26, X, Y, Z) :- Z is (X+Y)*3-(X-Y)//2.
ei(27, X, Y, Z) :- Z is X-(Y-(X+1))-(-Y).
ei(28, X, _, Z) :- Z is X+1.
ei(29, X, _, Z) :- Z is X-1.
ei(30, X, _, Z) :- Z is 7-X.
ei(31, X, _, Z) :- Z is X*5.
ei(32, X, _, Z) :- Z is X+(-3).
ei(33, X, _, Z) :- Z is -(-(X)).
ei(34, X, _, Z) :- Z is (X/\255)+(X>>8).
ei(35, X, _, Z) :- Z = Y, W = X, Y is W.

ex(0, X, Y, X+Y).
ex(1, X, Y, X-Y).
ex(2, X, Y, X*Y).
ex(3, X, Y, X//Y).
ex(4, X, Y, X div Y).
ex(5, X, Y, X rem Y).
ex(6, X, Y, X mod Y).
ex(7, X, Y, X/\Y).
ex(8, X, Y, X\/Y).
ex(9, X, Y, xor(X,Y)).
ex(10, X, Y, X<<Y).
ex(11, X, Y, X>>Y).
ex(12, X, Y, min(X,Y)).
ex(13, X, Y, max(X,Y)).
ex(14, X, Y, gcd(X,Y)).
ex(15, X, Y, X^Y).
ex(16, X, _, -X).
ex(17, X, _, inc(X)).
ex(18, X, _, dec(X)).
ex(19, X, _, \X).
ex(20, X, _, abs(X)).
ex(21, X, _, sign(X)).
ex(22, X, _, lsb(X)).
ex(23, X, _, msb(X)).
ex(24, X, _, popcount(X)).
ex(25, X, _, +(X)).
ex(26, X, Y, (X+Y)*3-(X-Y)//2).
ex(27, X, Y, X-(Y-(X+1))-(-Y)).
ex(28, X, _, X+1).
ex(29, X, _, X-1).
ex(30, X, _, 7-X).
ex(31, X, _, X*5).
ex(32, X, _, X+(-3)).
ex(33, X, _, -(-(X))).
ex(34, X, _, (X/\255)+(X>>8)).
ex(35, X, _, Y) :- Y = [X].

% succ/2: M = 0 both bound (directly), 1 both bound through another variable, 2 first only, 3 second only
succ_scn(0, X, Y) :- gs_try(succ(X, Y), R), succ_c(R, C), gs_out(R), gs_reach(6), a01_succ(0, X, Y, C, 0).
succ_scn(1, X, Y) :- f(A, B) = f(V, W), V = X, W = Y, gs_try(succ(A, B), R), succ_c(R, C), gs_out(R), a01_succ(0, X, Y, C, 0).
succ_scn(2, X, _) :- gs_try(succ(X, Z), R), succ_c(R, C), gs_out(R), ( C =:= 0 -> V = Z ; V = 0 ), a01_succ(2, X, 0, C, V).
succ_scn(3, _, Y) :- gs_try(succ(Z, Y), R), succ_c(R, C), gs_out(R), ( C =:= 0 -> V = Z ; V = 0 ), a01_succ(3, 0, Y, C, V).
succ_c(yes, 0).
succ_c(no, 1).
succ_c(err(domain_error(not_less_than_zero, _)), 2).
succ_c(err(type_error(not_less_than_zero, _)), 2).
succ_c(err(evaluation_error(int_overflow)), 3).
