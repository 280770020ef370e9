% comparison of a goal with its reference definition: the first N solutions (as instances of T), in order, and how the search ends
:- foreign(t02_variant(term,term)).
rf_first(T, G, N, R) :- g_assign(rf_acc, []), g_assign(rf_num, 0), gs_try(\+ \+ rf_run(T, G, N), E), g_read(rf_acc, L), R = E-L.
rf_run(T, G, N) :- call(G), g_read(rf_acc, L), g_assign(rf_acc, [T|L]), g_read(rf_num, K), K1 is K+1, g_assign(rf_num, K1), K1 >= N, !.
rf_run(_, _, _).
% rf_cmp(T, G, H, N, Msg)
rf_cmp(T, G, H, N, Msg) :- rf_first(T, G, N, R), rf_first(T, H, N, S), ( t02_variant(R, S) -> true ; gs_out(G), gs_out(R), gs_out(S), gs_fail(Msg) ).
% rf_check(T, G, H, N, Es, Msg): when Es (the applicable errors) is not empty G raises one of them and binds nothing, otherwise G is H
rf_check(T, G, H, N, Es, Msg) :- Es == [], !, rf_cmp(T, G, H, N, Msg).
rf_check(_, G, _, _, Es, Msg) :- gs_snap(7, G), gs_try(G, R), ( R = err(E), rf_in(E, Es) -> true ; gs_out(G), gs_out(R), gs_out(Es), gs_fail(Msg) ), gs_same(7, G, X), ( X =:= 1 -> true ; gs_fail('an error leaves bindings') ).
rf_in(E, [F|_]) :- t02_variant(E, F), !.
rf_in(E, [_|L]) :- rf_in(E, L).
% rf_errs(List of Cond-Error, Es): the errors whose condition holds
rf_errs([], []).
rf_errs([C-E|L], Es) :- ( call(C) -> Es = [E|Fs] ; Es = Fs ), rf_errs(L, Fs).
