% construction, inspection, copying and in-place update of terms
:- discontiguous(scn/1).
:- foreign(t02_vars(term,term,term)).
:- foreign(t02_nvars(term,-integer)).
:- foreign(t02_variant(term,term)).
:- foreign(t02_renamed(term,term)).
:- foreign(t02_name(term,-term,-integer)).
:- foreign(t02_arg(+integer,term,-term)).
:- foreign(t02_kind(term,-integer)).
:- foreign(t02_univ(term,term)).
:- foreign(t02_list(term,-integer)).
:- foreign(t01_enc(term,term,term,-integer)).
:- foreign(t01_inj(term)).

gs_scn :- gs_choice(8, S), gs_reach(S), scn(S).

cfg(L, t(L, [a, []], -1152921504606846976, 1152921504606846975, [f/1, g/2, '.'/2])).
any(T, Vs) :- cfg(Vs, C), gs_t(2, C, T).

% 0: inspection of an arbitrary term
scn(0) :- Vs = [_,_], any0(T, Vs), ( var(T) -> gs_assume(0) ; true ), t02_name(T, F, N), gs_snap(0, T),
	ck((functor(T, A, B), A == F, B == N), 'functor/3 does not give name and arity'), ck((call(functor, T, C, D), C == F, D == N), 'functor/3 (called) does not give name and arity'),
	ck(functor(T, F, N), 'functor/3 fails on the right name and arity'), N1 is N+1, no(functor(T, F, N1), 'functor/3 succeeds on a wrong arity'),
	no(functor(T, zzz, N), 'functor/3 succeeds on a wrong name'),
	ck((T =.. L, t02_univ(T, L)), '=.. does not give name and arguments'), ck((call(=.., T, L2), t02_univ(T, L2)), '=.. (called) does not give name and arguments'),
	T =.. L3, ck((T3 =.. L3, T3 == T), '=.. does not rebuild the term'), ck((functor(T4, F, N), t02_name(T4, F4, N4), F4 == F, N4 == N), 'functor/3 does not rebuild the functor'),
	( N =:= 0 -> err(arg(1, T, _), type_error(compound, T), 'arg/3 of an atomic term')
	; gs_int(argno, -1152921504606846976, 1152921504606846975, I), ai(I, N, T) ),
	ck(gs_same(0, T, 1), 'the inspected term changed').
any0(T, Vs) :- cfg(Vs, C), gs_t(1, C, T).
ai(I, _, T) :- I < 0, !, err(arg(I, T, _), domain_error(not_less_than_zero, I), 'arg/3 with a negative number').
ai(I, N, T) :- ( I =:= 0 ; I > N ), !, no(arg(I, T, _), 'arg/3 succeeds on a missing argument').
ai(I, _, T) :- t02_arg(I, T, A), ck((arg(I, T, B), A == B), 'arg/3 gives a wrong argument'), ck(( call(arg, I, T, C), C == A), 'arg/3 (called) gives a wrong argument'), no(arg(I, T, '$none'), A, 'arg/3 succeeds on a wrong argument').
no(G, A, M) :- ( nonvar(A) -> no(G, M) ; true ).

% 1: functor/3 building a term
scn(1) :- gs_pick([a, [], '.', f, k(1), 1.5, 7, _], F), gs_pick([i, v, a, f], K), num(K, N), fb(F, N).
num(i, N) :- gs_int(arity, -1152921504606846976, 1152921504606846975, N), ( N > 4, N < 254 -> gs_assume(0) ; true ).
num(v, _).
num(a, b).
num(f, 1.0).
fb(F, N) :- ( var(F) ; var(N) ), !, gs_try(functor(_, F, N), R), ck(( var(F), R = err(instantiation_error) ; compound(F), R = err(type_error(atomic, F)) ; R = err(instantiation_error)), 'functor/3 with a variable name or arity').
fb(F, N) :- compound(F), !, err(functor(_, F, N), type_error(atomic, F), 'functor/3 with a compound name').
fb(F, N) :- \+ integer(N), !, err(functor(_, F, N), type_error(integer, N), 'functor/3 with a non-integer arity').
fb(F, N) :- N < 0, !, err(functor(_, F, N), domain_error(not_less_than_zero, N), 'functor/3 with a negative arity').
fb(F, N) :- N > 255, !, err(functor(_, F, N), representation_error(max_arity), 'functor/3 with a too large arity').
fb(F, N) :- N > 0, \+ atom(F), !, err(functor(_, F, N), type_error(atom, F), 'functor/3 with a number as name of a compound term').
fb(F, N) :- ck((functor(T, F, N), t02_name(T, G, M), G == F, M == N, t02_nvars(T, V), V =:= N), 'functor/3 builds a wrong term'), ck((functor(T2, F, N), functor(T3, F, N), T2 = T3), 'terms built by functor/3 do not unify').

% 2: =.. building a term from any list-like term
scn(2) :- gs_pick([a, '.', f(x), 3, 2.5, _], H), gs_pick([[], [b], [b,c], [b,_], [b,c,d], _, [b|_], [b|c], z, [b,c|9]], T), L = [H|T], ub(L, H, T), ul([], domain_error(non_empty_list, [])), ul(foo, type_error(list, foo)), ul(_, instantiation_error), ul(3, type_error(list, 3)), ul(f(a), type_error(list, f(a))).
ul(L, E) :- err(_ =.. L, E, '=.. of a non-list').
ub(L, H, T) :- t02_list(T, K), uk(K, L, H, T).
uk(1, L, H, T) :- !, gs_try(_ =.. L, R), ck((R = err(instantiation_error) ; nonvar(H), \+ atom(H), nonvar(T), R = err(type_error(atom, H))), '=.. of a partial list').
uk(2, L, H, T) :- !, gs_try(_ =.. L, R), ck((R = err(type_error(list, L1)), L1 == L ; var(H), R = err(instantiation_error) ; nonvar(H), \+ atom(H), T = [_|_], R = err(type_error(atom, H)) ; nonvar(H), \+ atom(H), R = err(type_error(_, _))), '=.. of a non-list').
uk(0, L, H, T) :- var(H), !, err(_ =.. L, instantiation_error, '=.. with a variable name'), ck(T \== zz, '').
uk(0, L, H, []) :- compound(H), !, err(_ =.. L, type_error(atomic, H), '=.. with a compound name').
uk(0, L, H, [_|_]) :- \+ atom(H), !, err(_ =.. L, type_error(atom, H), '=.. with a non-atom name').
uk(0, L, _, _) :- ck((X =.. L, t02_univ(X, L)), '=.. builds a wrong term').

% 3: copy_term/2, term_variables/2,3, ground/1
scn(3) :- Vs = [A,B,C], gs_t(2, t(Vs, [a], -1152921504606846976, 1152921504606846975, [f/1, g/2, '.'/2]), T), gs_snap(0, T), gs_pick([0,1,2], K), ( K =:= 1 -> A = B ; K =:= 2 -> gs_pick([f(C), [C|z], k], B) ; true ),
	( K =:= 0 -> true ; gs_snap(0, T) ),
	ck((copy_term(T, U), t02_renamed(T, U)), 'copy_term/2 is not a renamed copy'), ck((call(copy_term, p(T,T,A), U2), t02_renamed(p(T,T,A), U2)), 'copy_term/2 (called) is not a renamed copy'),
	ck((term_variables(T, L), t02_vars(T, L, [])), 'term_variables/2'), ck((term_variables(T, L2, e(Q)), t02_vars(T, L2, e(Q))), 'term_variables/3'),
	t02_nvars(T, N), ( ground(T) -> ck(N =:= 0, 'ground/1 succeeds on a term with variables') ; ck(N > 0, 'ground/1 fails on a ground term') ),
	ck(acyclic_term(T), 'acyclic_term/1 fails on a finite term'),
	ck((findall(T, true, [U3]), t02_renamed(T, U3)), 'findall/3 does not copy its solution'), ck((catch(throw(T), U4, true), ( nonvar(T) -> t02_renamed(T, U4) ; true ) ; var(T)), 'throw/1 does not copy its ball'),
	ck(gs_same(0, T, 1), 'the term changed').

% 4: copies are independent of the original
scn(4) :- Vs = [_,_], any0(T, Vs), copy_term(T, U), gs_snap(0, T), term_variables(U, L), bindall(L), ck(gs_same(0, T, 1), 'binding a copy changed the original'), ck(ground(U), 'binding all variables of the copy'), 
	( compound(U) -> setarg(1, U, new), ck(( T \= new, gs_same(0, T, 1)), 'setarg/3 on a copy changed the original') ; true ).
bindall([]).
bindall([x|L]) :- bindall(L).

% 5: setarg/3, setarg/4, nb_setarg/3
scn(5) :- Vs = [A,B], gs_pick([f(A), g(A,k), g(B,f(A)), [A,B], [1|B], h(1,2,3), q], T), gs_int(argno, -1152921504606846976, 1152921504606846975, I), gs_pick([new, 5, 2.5, f(B), B, _], V), gs_pick([true, false, _, maybe], U), sa(I, T, V, U).
sa(I, T, V, U) :- atom(T), !, gs_try(setarg(I, T, V, U), R), ck(R = err(type_error(compound, T)), 'setarg/4 of an atomic term').
sa(I, T, V, U) :- I < 0, !, err(setarg(I, T, V, U), domain_error(not_less_than_zero, I), 'setarg/4 with a negative number').
sa(I, T, V, U) :- var(U), !, err(setarg(I, T, V, U), instantiation_error, 'setarg/4 with a variable mode').
sa(I, T, V, maybe) :- !, err(setarg(I, T, V, maybe), type_error(boolean, maybe), 'setarg/4 with a wrong mode').
sa(I, T, V, false) :- \+ atom(V), \+ integer(V), !, gs_snap(0, T), gs_try(setarg(I, T, V, false), R), ck(R = err(type_error(atomic, _)), 'setarg/4 without undo of a term'), ck(gs_same(0, T, 1), 'a failing setarg/4 changed the term').
sa(I, T, V, U) :- functor(T, _, N), ( I =:= 0 ; I > N ), !, gs_snap(0, T), no(setarg(I, T, V, U), 'setarg/4 of a missing argument'), ck(gs_same(0, T, 1), 'a failing setarg/4 changed the term').
sa(I, T, V, _) :- arg(I, T, O), var(O), \+ ground(V), !, gs_assume(0). % documented: no further use of the old value
sa(I, T, V, U) :- T =.. [F|As], repl(I, As, V, Bs), X =.. [F|Bs], gs_snap(0, T), 
	( U == true -> ck(\+ \+ (setarg(I, T, V), T == X), 'setarg/3 result'), ck(gs_same(0, T, 1), 'setarg/3 not undone on backtracking'),
	    catch((setarg(I, T, V, U), setarg(I, T, zz), throw(e)), e, true), ck(gs_same(0, T, 1), 'setarg/4 not undone by an exception'),
	    ( setarg(I, T, V), setarg(I, T, k2), fail ; true ), ck(gs_same(0, T, 1), 'two setarg/3 not undone on backtracking'),
	    ck((setarg(I, T, V, true), T == X), 'setarg/4 result')
	; ck(\+ (setarg(I, T, V, false), fail), ''), ck(T == X, 'setarg/4 without undo is undone or wrong'), ck((nb_setarg(I, T, other), arg(I, T, O), O == other), 'nb_setarg/3') ).
repl(1, [_|L], V, [V|L]) :- !.
repl(I, [A|L], V, [A|M]) :- J is I-1, repl(J, L, V, M).

% 6: type tests against the kind of the term
scn(6) :- any0(T, [_,_]), gs_int(fl, 0, 48, FK), gs_pick([0,1], W), ( W =:= 0 -> X = T ; gs_flt(FK, X) ), t02_kind(X, K), t02_list(X, L), 
	tt(var(X), K, [0]), tt(nonvar(X), K, [1,2,3,4]), tt(atom(X), K, [3]), tt(integer(X), K, [2]), tt(float(X), K, [1]), tt(number(X), K, [1,2]), tt(atomic(X), K, [1,2,3]), tt(compound(X), K, [4]), tt(callable(X), K, [3,4]),
	tt(is_list(X), L, [0]), tt(list(X), L, [0]), tt(partial_list(X), L, [1]), tt(list_or_partial_list(X), L, [0,1]),
	ib(K, X), il(L, X).
tt(G, K, L) :- ( memb(K, L) -> ck(G, 'a type test fails') ; G =.. [F|_], gs_out(F), no(G, 'a type test succeeds') ).
memb(K, [K|_]) :- !.
memb(K, [_|L]) :- memb(K, L).
ib(K, X) :- ( var(X) -> A = 0 ; atom(X) -> A = 3 ; integer(X) -> A = 2 ; float(X) -> A = 1 ; compound(X) -> A = 4 ; A = none ), ck(A == K, 'inlined type tests'),
	( number(X) -> ck((K =:= 1 ; K =:= 2), 'inlined number/1') ; ck((K =\= 1, K =\= 2), 'inlined number/1') ), ( atomic(X) -> ck((K >= 1, K =< 3), 'inlined atomic/1') ; ck((K =:= 0 ; K =:= 4), 'inlined atomic/1') ),
	( callable(X) -> ck(K >= 3, 'inlined callable/1') ; ck(K < 3, 'inlined callable/1') ), ( nonvar(X) -> ck(K > 0, 'inlined nonvar/1') ; ck(K =:= 0, 'inlined nonvar/1') ).
il(L, X) :- ( is_list(X) -> ck(L =:= 0, 'inlined is_list/1') ; ck(L =\= 0, 'inlined is_list/1') ), ( list(X) -> ck(L =:= 0, 'inlined list/1') ; ck(L =\= 0, 'inlined list/1') ), ( partial_list(X) -> ck(L =:= 1, 'inlined partial_list/1') ; ck(L =\= 1, 'inlined partial_list/1') ), ( list_or_partial_list(X) -> ck(L < 2, 'inlined list_or_partial_list/1') ; ck(L =:= 2, 'inlined list_or_partial_list/1') ).

% 7: subsumes_term/2
scn(7) :- Vs = [A,B,C], K = t([A,B], [a], 0, 1, [f/1, g/2]), gs_t(1, K, X), gs_t(1, t([B,C], [a], 0, 1, [f/1,g/2]), Y), gs_pick([g(X,A), g(A,X), X], X1), gs_pick([g(Y,C), g(C,Y), Y], Y1), term_variables(Y1, Ys), Y2 =.. [v|Ys],
	gs_snap(0, p(Vs, X1, Y1)), t01_enc(Y2, X1, Y1, R), ( R =:= 1, t01_inj(Y2) -> E = yes ; E = no ),
	gs_try(subsumes_term(X1, Y1), R1), ( R1 == E -> true ; gs_out(E), gs_fail('subsumes_term/2 is wrong') ), ck(gs_same(0, p(Vs, X1, Y1), 1), 'subsumes_term/2 changed a variable').
