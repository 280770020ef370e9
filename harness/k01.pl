% atoms as sequences of characters
:- discontiguous(scn/1).
:- foreign(k01_atom(term,-term)).
:- foreign(k01_rep(+integer,+integer,-term)).
:- foreign(k01_strlen(term,-integer)).
:- foreign(k01_char(+integer,-term)).
:- foreign(k01_is(term,term)).
gs_scn :- gs_choice(7, S), gs_reach(S), scn(S).

bet(I, J, I) :- I =< J.
bet(I, J, K) :- I < J, I1 is I+1, bet(I1, J, K).
app([], L, L).
app([H|T], L, [H|R]) :- app(T, L, R).
len([], 0).
len([_|T], N) :- len(T, M), N is M+1.
int(X) :- gs_int(n, -1152921504606846976, 1152921504606846975, X).
word(W) :- gs_pick([[],[0'a],[0'a,0'a],[0'a,0'b],[0'a,0'b,0'a],[0'a,0'a,0'b],[0'a,0'a,0'a],[0'b,233]], W).
part(W) :- gs_pick([[],[0'a],[0'b],[0'a,0'a],[0'a,0'b],[0'a,0'b,0'a],[233],[0'a,0'b,0'a,0'b]], W).
bad(X) :- gs_pick([1,f(a),2.5,[a]], X).

% 0: sub_atom
scn(0) :- word(W), k01_atom(W, A), num(V, B), num(V, L), num(V, F), sub(V, S), G = sub_atom(A,B,L,F,S),
	rf_errs([neg(B)-domain_error(not_less_than_zero,B), neg(L)-domain_error(not_less_than_zero,L), neg(F)-domain_error(not_less_than_zero,F)], Es), rf_check(G, G, r_sub(W,B,L,F,S), 30, Es, 'sub_atom/5').
num(V, N) :- gs_choice(3, K), ( K =:= 0 -> N = _ ; K =:= 1 -> N = V ; int(N) ).
neg(X) :- integer(X), X < 0.
sub(V, S) :- gs_choice(3, K), ( K =:= 0 -> S = _ ; K =:= 1 -> S = V ; part(P), k01_atom(P, S) ).
r_sub(W, B, L, F, S) :- len(W, N), bet(0, N, B0), M is N-B0, bet(0, M, L0), F0 is M-L0, sl(B0, L0, W, P), k01_atom(P, S0), B = B0, L = L0, F = F0, S = S0.
sl(0, L, W, P) :- !, pre(L, W, P).
sl(B, L, [_|W], P) :- B1 is B-1, sl(B1, L, W, P).
pre(0, _, P) :- !, P = [].
pre(L, [X|W], [X|P]) :- L1 is L-1, pre(L1, W, P).
% 1: ill-typed arguments
scn(1) :- gs_choice(4, P), ill(P, G, Cs), rf_errs(Cs, Es), ( Es == [] -> gs_assume(0) ; true ), rf_check(G, G, true, 1, Es, 'the documented error is not raised').
ill(0, sub_atom(A,B,L,F,S), [var(A)-instantiation_error, noa(A)-type_error(atom,A), noi(B)-type_error(integer,B), noi(L)-type_error(integer,L), noi(F)-type_error(integer,F), noa(S)-type_error(atom,S), neg(B)-domain_error(not_less_than_zero,B), neg(L)-domain_error(not_less_than_zero,L), neg(F)-domain_error(not_less_than_zero,F)]) :- arg1(A), argi(B), argi(L), argi(F), arg1(S).
ill(1, atom_concat(A,B,C), [(var(A),var(C))-instantiation_error, (var(B),var(C))-instantiation_error, noa(A)-type_error(atom,A), noa(B)-type_error(atom,B), noa(C)-type_error(atom,C)]) :- arg1(A), arg1(B), arg1(C).
ill(2, atom_length(A,L), [var(A)-instantiation_error, noa(A)-type_error(atom,A), noi(L)-type_error(integer,L), neg(L)-domain_error(not_less_than_zero,L)]) :- arg1(A), argi(L).
ill(3, G, [(var(A),var(B))-instantiation_error, noc(A)-type_error(character,A)|Cs]) :- chr(A), gs_choice(2, K), ( K =:= 0 -> G = char_code(A,B), argi(B), Cs = [noi(B)-type_error(integer,B), nocode(B)-representation_error(character_code)] ; G = lower_upper(A,B), chr(B), Cs = [noc(B)-type_error(character,B)] ).
noa(X) :- nonvar(X), \+ atom(X).
noi(X) :- nonvar(X), \+ integer(X).
noc(X) :- nonvar(X), \+ ( atom(X), k01_strlen(X, 1) ).
nocode(X) :- integer(X), ( X < 1 -> true ; X > 255 ).
arg1(A) :- gs_pick([_,abc,1,f(x),1.5], A).
argi(A) :- gs_choice(4, K), ( K =:= 0 -> A = _ ; K =:= 1 -> int(A) ; K =:= 2 -> A = abc ; A = f(x) ).
chr(A) :- gs_pick([_,a,ab,'',1,f(x)], A).
% 2: atom_concat
scn(2) :- wa(V, A), wa(V, B), gs_choice(2, K), ( K =:= 0 -> wa(V, C), ( var(C), ( var(A) ; var(B) ) -> gs_assume(0) ; true ) ; part(P), part(Q), app(P, Q, R), k01_atom(R, C) ), G = atom_concat(A,B,C), ( var(C) -> wd(A, P1), wd(B, Q1), app(P1, Q1, R1), H = k01_atom(R1, C) ; wd(C, R1), H = ( app(X, Y, R1), k01_atom(X, A0), k01_atom(Y, B0), A = A0, B = B0 ) ), rf_cmp(G, G, H, 30, 'atom_concat/3').
wa(V, A) :- gs_choice(3, K), ( K =:= 0 -> A = _ ; K =:= 1 -> A = V ; part(P), k01_atom(P, A) ).
wd(A, P) :- gs_pick([[],[0'a],[0'b],[0'a,0'a],[0'a,0'b],[0'a,0'b,0'a],[233],[0'a,0'b,0'a,0'b]], P), ( k01_is(A, P) -> true ; gs_assume(0) ).
% 3: atom_length, char_code, lower_upper
scn(3) :- gs_choice(5, P), p3(P).
p3(0) :- word(W), k01_atom(W, A), len(W, N), gs_choice(2, K), ( K =:= 0 -> L = _ ; gs_int(l, 0, 1152921504606846975, L) ), rf_cmp(L, atom_length(A,L), L = N, 3, 'atom_length/2').
p3(1) :- gs_int(c, 1, 255, C), gs_conc(C, C0), k01_char(C0, A), ck(char_code(A,C), 'char_code/2'), char_code(X, C), ck(X == A, 'char_code/2'), char_code(A, Y), ck(Y == C, 'char_code/2'), gs_int(d, 1, 255, D), ( C =:= D -> true ; no(char_code(A,D), 'char_code/2') ).
p3(2) :- gs_int(c, 1, 126, C), gs_conc(C, C0), k01_char(C0, A), ( C >= 0'a, C =< 0'z -> U is C-32 ; U = C ), ( C >= 0'A, C =< 0'Z -> D is C+32 ; D = C ), k01_char(U, UA), k01_char(D, DA), lower_upper(A, X), ck(X == UA, 'lower_upper/2'), lower_upper(Y, A), ck(Y == DA, 'lower_upper/2').
p3(3) :- gs_choice(3, K), gs_pick([a,zz,''], A), ( K =:= 0 -> new_atom(A, X) ; K =:= 1 -> new_atom(X), P0 = atom_ ; new_atom(A, Y), new_atom(A, X), ck(X \== Y, 'new_atom/2 gives an atom twice') ), ck(atom(X), 'new_atom'), ( P0 = A -> true ; true ), atom_codes(P0, P), atom_codes(X, Q), ck(app(P, [_|_], Q), 'new_atom/2: prefix').
p3(4) :- word(W), k01_atom(W, A), word(V), k01_atom(V, B), ( W == V -> ck(A == B, 'the same name gives two atoms') ; ck(A \== B, 'two names give one atom') ), ck(atom(A), 'atom/1').
% 4: atom_codes and atom_chars; from a list of codes, partial lists and ill-formed lists
scn(4) :- word(W), k01_atom(W, A), gs_choice(2, K), lst(K, 3, L), ( K =:= 0 -> G = atom_codes(A,L), M = W ; G = atom_chars(A,L), chars(W, M) ), list_errs(K, L, Es), rf_check(L, G, L = M, 3, Es, 'atom_codes/2 or atom_chars/2 of an atom').
scn(5) :- gs_choice(2, K), lst(K, 3, L), ( K =:= 0 -> G = atom_codes(A,L) ; G = atom_chars(A,L) ), list_errs(K, L, Es0), ( \+ ground(L) -> Es = [instantiation_error|Es0] ; Es = Es0 ), ( Es == [] -> codes(K, L, W) ; W = [] ), rf_check(A, G, k01_atom(W,A), 3, Es, 'atom_codes/2 or atom_chars/2 of a list').
chars([], []).
chars([C|W], [A|M]) :- k01_char(C, A), chars(W, M).
codes(0, L, L).
codes(1, L, W) :- cds(L, W).
cds([], []).
cds([A|L], [C|W]) :- gs_pick([0'a,0'b,233], C), ( k01_is(A, [C]) -> true ; gs_assume(0) ), cds(L, W).
lst(K, N, L) :- gs_choice(3, C), ( C =:= 0 -> L = [] ; C =:= 1, N > 0 -> el(K, X), L = [X|T], N1 is N-1, lst(K, N1, T) ; gs_pick([_,z], L) ).
el(0, X) :- gs_choice(4, K), ( K =:= 0 -> gs_int(e, 0'a, 0'b, X0), gs_conc(X0, X) ; K =:= 1 -> int(X), ( X > 0, X < 256 -> gs_assume(0) ; true ) ; K =:= 2 -> X = _ ; gs_pick([a,233], X) ).
el(1, X) :- gs_choice(3, K), ( K =:= 0 -> gs_pick([0'a,0'b,233], C), k01_char(C, X) ; K =:= 1 -> X = _ ; gs_pick([ab,'',1,f(x)], X) ).
list_errs(K, L, Es) :- tail(L, T), ( T == [] -> Es0 = [] ; var(T) -> Es0 = [] ; Es0 = [type_error(list,L)] ), ele(K, L, Es1), app(Es0, Es1, Es).
tail(L, T) :- ( nonvar(L), L = [_|M] -> tail(M, T) ; T = L ).
ele(K, L, Es) :- ( nonvar(L), L = [X|M] -> ( K =:= 0 -> ( noi(X) -> Es = [type_error(integer,X)|Fs] ; nocode(X) -> Es = [representation_error(character_code)|Fs] ; Es = Fs ) ; noc(X) -> Es = [type_error(character,X)|Fs] ; Es = Fs ), ele(K, M, Fs) ; Es = [] ).
% 6: long atoms
scn(6) :- gs_pick([255,256,65535,65536,65537,131072], N), k01_rep(N, 0'a, A), atom_length(A, L), ck(L =:= N, 'the length of a long atom'), atom_concat(A, b, B), k01_strlen(B, M), ck(M =:= N+1, 'atom_concat/3 of a long atom'), atom_length(B, M2), ck(M2 =:= M, 'the length of a long atom'),
	sub_atom(B, N, L1, 0, S), ck((L1 == 1, S == b), 'sub_atom/5 of a long atom'), gs_int(b, 0, 1152921504606846975, X), ( X > M -> no(sub_atom(B, X, _, _, _), 'sub_atom/5 of a long atom') ; X =:= N -> ck(sub_atom(B, X, 1, _, b), 'sub_atom/5') ; gs_assume(0) ).
