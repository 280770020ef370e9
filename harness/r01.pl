% reading and writing numbers
:- discontiguous(scn/1).
:- foreign(r01_parse(term,-integer,-term)).
gs_scn :- gs_choice(6, S), gs_reach(S), scn(S).

try(L, R) :- gs_try(number_codes(X, L), R0), ( R0 == yes -> R = X ; R = R0 ).
same(K, X, R) :- ( K =:= 1 -> R == X ; K =:= 2 -> R == X ; nonvar(R), R = err(syntax_error(_)) ).
chk(L) :- r01_parse(L, K, X), try(L, R), ( same(K, X, R) -> true ; gs_out(L), gs_out(K), gs_out(X), gs_out(R), gs_fail('number_codes/2 does not follow the syntax of numbers') ).
byte(C) :- gs_int(c, 1, 255, C).
bytes(0, []) :- !.
bytes(N, [C|L]) :- byte(C), N1 is N-1, bytes(N1, L).
app([], L, L).
app([H|T], L, [H|R]) :- app(T, L, R).

% 0: any characters
scn(0) :- gs_bound(any, M), gs_choice(M, N), bytes(N, L), chk(L).
% 1: a prefix and any characters
scn(1) :- gs_bound(suf, M), gs_pick(["0'","0x","0o","0b","1.","-","0'\\","0'\\x","0'\\1","12","- ","0x0f","1.5e","1.5E-"], P), N is M, bytes(N, L), app(P, L, Q), chk(Q).
% 2: an alphabet
scn(2) :- gs_bound(alen, M), gs_choice(M, N), alpha(N, L), chk(L).
alpha(0, []) :- !.
alpha(N, [C|L]) :- gs_pick([0'0,0'1,0'.,0'e,0'-,0'x,39,92,32,0'%,10], C), N1 is N-1, alpha(N1, L).
% 3: integers around the bounds, in every radix
scn(3) :- gs_pick(["11529215046068469","-11529215046068469","0x0ffffffffffffff","0xfffffffffffffff","-0x1000000000000000","0x7fffffffffffffff","0xffffffffffffffffff","0o77777777777777777777","-0o100000000000000000000","92233720368547758","-92233720368547758","184467440737095516","99999999999999999999999999"], P), gs_bound(dig, D), digs(D, L), app(P, L, Q), chk(Q).
digs(0, []) :- !.
digs(N, [C|L]) :- gs_int(d, 0'0, 0'9, C), N1 is N-1, digs(N1, L).
% 4: escape sequences with many digits
scn(4) :- gs_pick(["0'\\x41","0'\\101","0'\\x10000004","0'\\x1000004","0'\\40000010","0'\\x0000000000004","0'\\x10000000004","0'\\200000000000000000010"], P), gs_choice(2, K), ( K =:= 0 -> byte(C), L = [C,92] ; byte(C), L = [C] ), app(P, L, Q), chk(Q).
% 5: writing and reading again
scn(5) :- gs_choice(4, K), val(K, X), number_codes(X, L), r01_parse(L, T, Y), ck((T =:= 1, Y =:= X), 'the digits of an integer'), number_codes(Z, L), ck(Z == X, 'reading a written integer').
val(0, X) :- gs_int(x, -120, 120, X).
val(1, X) :- gs_int(x, 1152921504606846965, 1152921504606846975, X).
val(2, X) :- gs_int(x, -1152921504606846976, -1152921504606846966, X).
val(3, X) :- gs_int(x, 2147483643, 2147483652, X).
