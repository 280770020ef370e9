% harness library (see gs_lib.c)
:- foreign(gs_int(+atom,+integer,+integer,-integer)).
:- foreign(gs_choice(+integer,-integer)).
:- foreign(gs_conc(+integer,-integer)).
:- foreign(gs_assume(+integer)).
:- foreign(gs_fail(+atom)).
:- foreign(gs_assert(+integer,+atom)).
:- foreign(gs_reach(+integer)).
:- foreign(gs_begin0).
:- foreign(gs_end).
:- foreign(gs_native).
:- foreign(gs_out(term)).

:- initialization(gs_main).

gs_main :- gs_begin0, gs_run, gs_end.

gs_run :- catch(gs_scn, E, (gs_out(E), gs_fail(unexpected_exception))), !.
gs_run :- gs_fail(scenario_failed).

% gs_check(Goal, Msg): Goal must succeed (bindings kept)
gs_check(G, _) :- call(G), !.
gs_check(_, M) :- gs_fail(M).

% gs_try(Goal, R): R = yes / no / err(E) / ball(B)
gs_try(G, R) :- catch((call(G) -> R = yes ; R = no), E, gs_err(E, R)).
gs_err(error(E, _), R) :- !, R = err(E).
gs_err(B, ball(B)).

% gs_pick(List, X): one element, chosen symbolically (one path each)
gs_pick(L, X) :- gs_len(L, 0, N), gs_choice(N, K), gs_nth(K, L, X).
gs_len([], N, N).
gs_len([_|T], N0, N) :- N1 is N0+1, gs_len(T, N1, N).
gs_nth(0, [X|_], X) :- !.
gs_nth(K, [_|T], X) :- K1 is K-1, gs_nth(K1, T, X).

:- foreign(gs_flt(+integer,-float)).
:- foreign(gs_cmp(term,term,-integer)).
:- foreign(gs_ident(term,term,-integer)).

% gs_t(D, Cfg, T): a term of depth at most D, chosen symbolically. Cfg = t(Vars, Atoms, Lo, Hi, Funs): integers stay symbolic in Lo..Hi,
% floats from gs_flt, compounds from Funs (list of F/N)
gs_t(D, C, T) :- C = t(Vs, As, _, _, Fs),
	gs_kinds(D, Vs, As, Fs, Ks), gs_pick(Ks, K), gs_tk(K, D, C, T).
gs_kinds(D, Vs, As, Fs, Ks) :- ( D > 0, Fs \== [] -> K1 = [c] ; K1 = [] ),
	( Vs == [] -> K2 = K1 ; K2 = [v|K1] ), ( As == [] -> K3 = K2 ; K3 = [a|K2] ), Ks = [i|K3].
gs_tk(i, _, t(_, _, Lo, Hi, _), X) :- gs_int(i, Lo, Hi, X).
gs_tk(v, _, t(Vs, _, _, _, _), X) :- gs_pick(Vs, X).
gs_tk(a, _, t(_, As, _, _, _), X) :- gs_pick(As, X).
gs_tk(c, D, C, T) :- C = t(_, _, _, _, Fs), gs_pick(Fs, F/N), functor(T, F, N), D1 is D-1, gs_targs(0, N, D1, C, T).
gs_targs(N, N, _, _, _) :- !.
gs_targs(I, N, D, C, T) :- I1 is I+1, gs_t(D, C, A), arg(I1, T, A), gs_targs(I1, N, D, C, T).

% snapshots of terms: gs_same(Slot, T, R): R = 1 when T is the same term as at gs_snap(Slot, T), with the same distinct variables
:- foreign(gs_snap(+integer,term)).
:- foreign(gs_same(+integer,term,-integer)).

% ck(Goal, Msg): Goal succeeds (bindings kept); no(Goal, Msg): it fails; err(Goal, E, Msg): it raises error(E, _)
ck(G, _) :- call(G), !.
ck(_, M) :- gs_fail(M).
err(G, Exp, M) :- gs_try(G, R), ( R = err(E), E = Exp -> true ; gs_out(R), gs_out(Exp), gs_fail(M) ).
no(G, M) :- gs_try(G, R), ( R == no -> true ; gs_out(R), gs_fail(M) ).
