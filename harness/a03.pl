% standard order: compare/3 and the ordering predicates against an independent definition; total order laws
gs_scn :- gs_choice(4, S), scn(S).

cfg(t([_, _], [a, b, '', [], ab, 'B'], -1152921504606846976, 1152921504606846975, [f/1, g/1, f/2, '.'/2])).

t(D, C, T) :- gs_choice(5, K), ( K =:= 0 -> gs_int(f, 0, 48, F), gs_flt(F, T) ; gs_t(D, C, T) ).

scn(0) :- cfg(C), t(1, C, X), t(1, C, Y), chk(X, Y), gs_reach(0).
scn(1) :- % symbolic leaves below a fixed shape
	cfg(t(Vs, As, Lo, Hi, _)), C = t(Vs, As, Lo, Hi, []), gs_pick([h(A,B,3), [A,B|q], k(z,[A],s(B))], X), gs_pick([h(D,E,3), [D,E|q], k(z,[D],s(E))], Y),
	gs_t(0, C, A), gs_t(0, C, B), gs_t(0, C, D), gs_t(0, C, E), chk(X, Y), gs_reach(1).
scn(2) :- % laws over three terms, variables included
	cfg(t(Vs, _, Lo, Hi, _)), C = t(Vs, [a, ab], Lo, Hi, [f/1]), gs_t(1, C, X), gs_t(1, C, Y), gs_t(1, C, Z),
	compare(O1, X, Y), compare(O2, Y, Z), compare(O3, X, Z), compare(I1, Y, X), gs_out(O1), gs_out(O2), gs_out(O3),
	gs_check(inv(O1, I1), 'compare/3 is not antisymmetric'),
	( O1 == (<), O2 == (<), O3 \== (<) -> gs_fail('compare/3 is not transitive') ; true ),
	( O1 == (=), O2 \== O3 -> gs_fail('compare/3: equal terms compare differently') ; true ),
	( O1 == (=) -> ( gs_ident(X, Y, 1) -> true ; float_in(X) -> true ; gs_fail('compare/3: = on different terms') ) ; true ), gs_reach(2).
scn(3) :- % numbers compared arithmetically: integers
	gs_int(x, -1152921504606846976, 1152921504606846975, X), gs_int(y, -1152921504606846976, 1152921504606846975, Y),
	gs_cmp(X, Y, R), ( X < Y -> A = -1 ; A = 0 ), ( X > Y -> B = 1 ; B = 0 ), ( X =:= Y -> E = 1 ; E = 0 ), ( X =\= Y -> N = 0 ; N = 1 ), ( X =< Y -> L = 1 ; L = 0 ), ( X >= Y -> G = 1 ; G = 0 ),
	S is A+B, gs_out(S),
	( R =:= S -> true ; gs_fail('arithmetic < or > is wrong') ), ( E =:= N -> true ; gs_fail('=:= and =\\= disagree') ),
	( R =:= 0 -> E == 1 ; E == 0 ), !, ( R =< 0 -> L == 1 ; L == 0 ), !, ( R >= 0 -> G == 1 ; G == 0 ), !,
	arg_cmp(X, Y, R), gs_reach(3).

arg_cmp(X, Y, R) :- P = p(X, Y), arg(1, P, A), arg(2, P, B), T = [A < B, A =:= B, A > B, A =< B, A >= B, A =\= B],
	tst(T, L), ( R < 0 -> W = [1,0,0,1,0,1] ; R > 0 -> W = [0,0,1,0,1,1] ; W = [0,1,0,1,1,0] ), ( L == W -> true ; gs_out(L), gs_fail('meta-called arithmetic comparison is wrong') ).
tst([], []).
tst([G|T], [B|L]) :- ( call(G) -> B = 1 ; B = 0 ), tst(T, L).

float_in(X) :- float(X).
float_in(X) :- compound(X), X =.. [_|L], float_l(L).
float_l([X|_]) :- float_in(X), !.
float_l([_|L]) :- float_l(L).

inv(<, >).
inv(>, <).
inv(=, =).

chk(X, Y) :- gs_cmp(X, Y, R), compare(O, X, Y), gs_out(O),
	( O == (<) -> V = -1 ; O == (>) -> V = 1 ; O == (=) -> V = 0 ; gs_fail('compare/3 answers neither <, = nor >') ),
	( R =:= 9 -> ( V =:= 0 -> gs_fail('compare/3 identifies distinct variables') ; true ) ; V =:= R -> true ; gs_fail('compare/3 is not the standard order') ),
	( X == Y -> ( V =:= 0 -> true ; gs_fail('== disagrees with compare/3') ) ; V =:= 0 -> gs_fail('== disagrees with compare/3') ; true ),
	( X \== Y -> ( V =\= 0 -> true ; gs_fail('\\== disagrees') ) ; V =\= 0 -> gs_fail('\\== disagrees') ; true ),
	( X @< Y -> ( V < 0 -> true ; gs_fail('@< disagrees') ) ; V < 0 -> gs_fail('@< disagrees') ; true ),
	( X @> Y -> ( V > 0 -> true ; gs_fail('@> disagrees') ) ; V > 0 -> gs_fail('@> disagrees') ; true ),
	( X @=< Y -> ( V =< 0 -> true ; gs_fail('@=< disagrees') ) ; V =< 0 -> gs_fail('@=< disagrees') ; true ),
	( X @>= Y -> ( V >= 0 -> true ; gs_fail('@>= disagrees') ) ; V >= 0 -> gs_fail('@>= disagrees') ; true ),
	G =.. [compare, P, X, Y], call(G), ( P == O -> true ; gs_fail('meta-called compare/3 differs') ).
