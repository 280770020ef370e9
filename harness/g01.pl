% global variables
gs_scn :- gs_choice(7, K), gs_reach(K), scn(K).
:- discontiguous(scn/1).
% model: a cell c(V,U): V = v(Copy), l(I) (link to the term number I) or arr(Auto,Cells); U = list of Depth-SavedValue, newest first
% histories of assignments to two variables, with choice points, exceptions and cuts
scn(0) :- gs_int(n, -1152921504606846976, 1152921504606846975, N), P = p(_,_), P = p(X,Y), ts(N, X, Y, Ts), cl, gs_bound(ops, M), hist(M, 1, Ts, P, s(c(v(0),[]),c(v(0),[])), _).
ts(N, X, Y, [N,f(X,Y,X),at,[1,Y|X],X,'']).
cl :- g_assign(a, 0), g_assign(b, 0).
hist(0, _, _, _, S, S) :- !.
hist(M, D, Ts, P, S0, S) :- M1 is M-1, gs_choice(9, K), hop(K, M1, D, Ts, P, S0, S1, M2), rdck(S1, Ts), hist(M2, D, Ts, P, S1, S).
hop(0, M, _, Ts, _, S0, S, M) :- gs_choice(2, W), vr(W, N), gs_pick([0,1,4], I), gs_nth(I, Ts, T), g_assign(N, T), copy_term(T, T1), setc(W, S0, c(v(T1),[]), S).
hop(1, M, D, Ts, _, S0, S, M) :- gs_choice(2, W), vr(W, N), gs_pick([0,1,3], I), gs_nth(I, Ts, T), g_assignb(N, T), copy_term(T, T1), getc(W, S0, c(V,U)), setc(W, S0, c(v(T1),[D-V|U]), S).
hop(2, M, D, Ts, _, S0, S, M) :- gs_choice(2, W), vr(W, N), gs_pick([0,1,4], I), gs_nth(I, Ts, T), g_link(N, T), getc(W, S0, c(V,U)), setc(W, S0, c(l(I),[D-V|U]), S).
hop(3, M, _, Ts, _, S0, S, M) :- gs_choice(2, W), vr(W, N), getc(W, S0, c(V,U)), gs_choice(2, Dec), ( iv(V, Ts, I) -> ( Dec =:= 0 -> ( I =:= 1152921504606846975 -> err(g_inc(N), evaluation_error(_), g_inc), S = S0 ; g_inc(N), J is I+1, setc(W, S0, c(v(J),U), S) )
	; I =:= -1152921504606846976 -> err(g_dec(N), evaluation_error(_), g_dec), S = S0 ; g_dec(N), J is I-1, setc(W, S0, c(v(J),U), S) )
	; err(g_inc(N), type_error(integer,_), 'g_inc of a non-integer'), S = S0 ).
hop(4, M, D, Ts, P, S0, S, 0) :- D1 is D+1, findall(S1, (hist(M, D1, Ts, P, S0, S2), und(S2, D1, S1)), L), ck(L = [S], history).
hop(5, M, D, Ts, P, S0, S, 0) :- D1 is D+1, catch(hthrow(M, D1, Ts, P, S0), ex(S2), und(S2, D1, S)).
hop(6, M, D, Ts, P, S0, S, 0) :- D1 is D+1, once(hist(M, D1, Ts, P, S0, S1)), rtag(S1, D, S).
hop(7, M, _, _, P, S, S, M) :- arg(1, P, X), ( var(X) -> X = 7 ; true ).
hop(8, M, _, Ts, _, S, S, M) :- gs_choice(2, W), vr(W, N), getc(W, S, c(V,_)), ( g_read(N, 7) -> ( iv0(V, Ts, T), \+ T \= 7 -> true ; gs_fail('g_read of an integer succeeds') ) ; iv0(V, Ts, T), T = 7 -> gs_fail('g_read of an integer fails') ; true ).
hthrow(M, D, Ts, P, S0) :- hist(M, D, Ts, P, S0, S), throw(ex(S)).
iv0(v(T), _, T1) :- copy_term(T, T1).
iv0(l(I), Ts, T) :- gs_nth(I, Ts, T).
iv(v(I), _, I) :- integer(I).
iv(l(K), Ts, I) :- gs_nth(K, Ts, I), integer(I).
vr(0, a). vr(1, b).
getc(0, s(A,_), A). getc(1, s(_,B), B).
setc(0, s(_,B), A, s(A,B)). setc(1, s(A,_), B, s(A,B)).
und(s(A,B), D, s(A1,B1)) :- undc(A, D, A1), undc(B, D, B1).
undc(c(V,[D1-V1|U]), D, C) :- D1 >= D, !, undc(c(V1,U), D, C).
undc(c(arr(Z,L),U), D, c(arr(Z,L1),U)) :- !, undl(L, D, L1).
undc(C, _, C).
undl([], _, []).
undl([C|L], D, [C1|L1]) :- undc(C, D, C1), undl(L, D, L1).
rtag(s(A,B), D, s(A1,B1)) :- rtc(A, D, A1), rtc(B, D, B1).
rtc(c(V,U), D, c(V1,U1)) :- rtu(U, D, U1), rtv(V, D, V1).
rtu([], _, []).
rtu([D1-V|U], D, [D2-V1|U1]) :- D2 is min(D1,D), rtv(V, D, V1), rtu(U, D, U1).
rtv(arr(Z,L), D, arr(Z,L1)) :- !, rtl(L, D, L1).
rtv(V, _, V).
rtl([], _, []).
rtl([C|L], D, [C1|L1]) :- rtc(C, D, C1), rtl(L, D, L1).
rdck(s(A,B), Ts) :- rd1(a, A, Ts), rd1(b, B, Ts).
rd1(N, c(V,_), Ts) :- g_read(N, T), ( V = l(I) -> gs_nth(I, Ts, E), gs_ident(T, E, R), ck(R =:= 1, 'a link is not the term itself') ; val(V, E), vck(T, E) ).
val(v(T), T).
val(arr(_,L), g_array(Es)) :- vals(L, Es).
vals([], []).
vals([c(V,_)|L], [E|Es]) :- val(V, E), vals(L, Es).
% variant check
vck(T, E) :- ck(subsumes_term(T, E), 'the value read differs'), ck(subsumes_term(E, T), 'the value read has other variables'), term_variables(T, Vs), nobnd(Vs).
nobnd([]).
nobnd([V|Vs]) :- ck(var(V), 'a variable of the value is bound'), nobnd(Vs).
% arrays: histories on one variable and its elements
scn(1) :- g_assign(w, 0), gs_bound(aops, M), gs_int(n, -9, 9, N), ah(M, 1, N, c(v(0),[]), _).
ah(0, _, _, S, S) :- !.
ah(M, D, N, S0, S) :- M1 is M-1, gs_choice(7, K), aop(K, M1, D, N, S0, S1, M2), rd1(w, S1, []), szck(S1), ah(M2, D, N, S1, S).
szck(c(arr(_,L),_)) :- !, len(L, 0, N), ck(g_array_size(w, N), 'g_array_size fails'), N1 is N+1, no(g_array_size(w, N1), g_array_size).
szck(_) :- no(g_array_size(w, _), 'g_array_size of a term').
len([], N, N).
len([_|L], N0, N) :- N1 is N0+1, len(L, N1, N).
dfn(N, T) :- gs_pick([g_array(2),g_array(1,N),g_array([N,f(_)]),g_array(3),g_array_auto(2),g_array_auto(1,N),g_array_auto([N,a,5]),g_array_extend(4),g_array_extend(1),g_array_extend([1,2,N,f(Y,Y)]),g_array_extend(3,g_array(1)),g_array(2,g_array_auto(1)),g_array([g_array(1),g_array([])]),g_array(0),N], T).
aop(0, M, _, N, S0, S, M) :- dfn(N, T), ( dok(T) -> g_assign(w, T), S0 = c(V0,U0), mk(T, V0, V), ( T =.. [g_array_extend|_], V0 = arr(_,_) -> S = c(V,U0) ; S = c(V,[]) ) ; err(g_assign(w, T), domain_error(g_array_index,_), 'invalid array'), S = S0 ).
aop(1, M, D, N, S0, S, M) :- dfn(N, T), ( dok(T) -> g_assignb(w, T), S0 = c(V0,U0), stripv(V0, V1), mk(T, V1, V), S = c(V,[D-V0|U0]) ; err(g_assignb(w, T), domain_error(g_array_index,_), 'invalid array'), S = S0 ).
aop(2, M, D, N, S0, S, M) :- gs_choice(2, B), gs_int(ix, -1, 5, I0), gs_conc(I0, I), el(B, I, D, N, S0, S).
aop(3, M, _, _, c(V,U), c(V1,U), M) :- gs_int(ix, -1, 5, I0), gs_conc(I0, I), ( acc(I, V, V1, c(E,_)) -> g_read(w(I), T), val(E, T0), vck(T, T0) ; err(g_read(w(I), _), domain_error(g_array_index,w(I)), 'g_read of an element'), V1 = V ).
aop(4, M, D, N, S0, S, 0) :- D1 is D+1, findall(S1, (ah(M, D1, N, S0, S2), undc(S2, D1, S1)), L), ck(L = [S], history).
aop(5, M, D, N, S0, S, 0) :- D1 is D+1, once(ah(M, D1, N, S0, S1)), rtc(S1, D, S).
aop(6, M, D, N, c(V,U), S, M) :- gs_pick([w(0,0),w(0,1),w(1,0)], T), T =.. [_,I,J], gs_choice(2, B), ( acc(I, V, V1, c(E,Eu)), acc(J, E, E1, c(F,Fu)) -> repl(I, V1, c(E2,Eu), V2), ( B =:= 0 -> g_assign(T, N), repl(J, E1, c(v(N),[]), E2) ; g_assignb(T, N), repl(J, E1, c(v(N),[D-F|Fu]), E2) ), S = c(V2,U) ; err(g_assign(T, N), domain_error(g_array_index,T), 'assignment to a nested element'), ( acc(I, V, V1, _) -> S = c(V1,U) ; S = c(V,U) ) ).
el(B, I, D, N, c(V,U), c(V2,U)) :- acc(I, V, V1, c(E,Eu)), !, ( B =:= 0 -> g_assign(w(I), N), repl(I, V1, c(v(N),[]), V2) ; g_assignb(w(I), f(N)), repl(I, V1, c(v(f(N)),[D-E|Eu]), V2) ).
el(_, I, _, N, S, S) :- err(g_assign(w(I), N), domain_error(g_array_index,w(I)), 'assignment to an element').
% acc(I, V, V1, C): element I of the array V, V1 = the array (expanded when automatic)
acc(I, arr(Z,L), arr(Z,L1), C) :- I >= 0, len(L, 0, N), ( I < N -> L1 = L ; Z \== no, pow2(1, I, N1), ext(N, N1, Z, X), append(L, X, L1) ), gs_nth(I, L1, C).
pow2(P, I, P) :- P > I, !.
pow2(P, I, N) :- P1 is P*2, pow2(P1, I, N).
ext(N, N, _, []) :- !.
ext(N, N1, Z, [c(Z,[])|X]) :- N2 is N+1, ext(N2, N1, Z, X).
repl(I, arr(Z,L), C, arr(Z,L1)) :- rp(I, L, C, L1).
rp(0, [_|L], C, [C|L]) :- !.
rp(I, [X|L], C, [X|L1]) :- I1 is I-1, rp(I1, L, C, L1).
stripv(arr(Z,L), arr(Z,L1)) :- !, stripl(L, L1).
stripv(V, V).
stripl([], []).
stripl([c(V,_)|L], [c(V1,[])|L1]) :- stripv(V, V1), stripl(L, L1).
dok(T) :- T =.. [F|As], ( ga(F), As \== [] -> dok1(As) ; true ).
ga(g_array). ga(g_array_auto). ga(g_array_extend).
dok1([N]) :- integer(N), !, N > 0.
dok1([N,T]) :- integer(N), !, N > 0, dok(T).
dok1([L]) :- L = [_|_], dokl(L).
dokl([]).
dokl([T|L]) :- dok(T), dokl(L).
mk(T, V0, V) :- T =.. [F|As], ga(F), As \== [], !, mka(F, As, V0, V).
mk(T, _, v(T1)) :- copy_term(T, T1).
mka(g_array_extend, As, arr(Z,L0), arr(Z,L)) :- !, mkl(As, L1, _), mrg(L1, L0, L).
mka(g_array_auto, As, _, arr(Z,L)) :- !, mkl(As, L, Z).
mka(_, As, _, arr(no,L)) :- mkl(As, L, _).
mrg([], _, []) :- !.
mrg([_|L1], [C|L0], [C|L]) :- !, mrg(L1, L0, L).
mrg(L, [], L).
mkl([L|_], Cs, v(0)) :- L = [_|_], !, mks(L, Cs).
mkl([N|I], Cs, Z) :- ( I = [T] -> true ; T = 0 ), mk(T, v(0), Z), ext(0, N, Z, Cs).
mks([], []).
mks([T|L], [c(V,[])|Cs]) :- mk(T, v(0), V), mks(L, Cs).
% increments and bits over the whole range of integers
scn(2) :- gs_int(n, -1152921504606846976, 1152921504606846975, N), gs_choice(3, W), iset(W, N, V), gs_choice(8, K), Mx = 1152921504606846975, Mn is -Mx-1,
	( K < 4 -> ( N =:= Mx -> icall(K, V, G, _, _), err(G, evaluation_error(int_overflow), 'increment at the bound'), ck(g_read(V, N), 'value after an error') ; N1 is N+1, ick(K, V, N, N1) )
	; N =:= Mn -> icall(K, V, G, _, _), err(G, evaluation_error(int_overflow), 'decrement at the bound'), ck(g_read(V, N), 'value after an error') ; N1 is N-1, ick(K, V, N, N1) ).
iset(0, N, a) :- g_assign(a, N).
iset(1, N, w(1)) :- g_assign(w, g_array(2)), g_assignb(w(1), N).
iset(2, N, a) :- g_link(a, N).
icall(0, V, g_inc(V), _, _). icall(1, V, g_inco(V,O), O, _). icall(2, V, g_inc(V,N), _, N). icall(3, V, g_inc(V,O,N), O, N).
icall(4, V, g_dec(V), _, _). icall(5, V, g_deco(V,O), O, _). icall(6, V, g_dec(V,N), _, N). icall(7, V, g_dec(V,O,N), O, N).
ick(K, V, N, N1) :- icall(K, V, G, O, R), gs_choice(4, M), im(M, K, V, G, O, R, N, N1).
im(0, _, V, G, O, R, N, N1) :- ck(G, increment), ck((O = N, R = N1, O == N, R == N1), 'old or new value'), ck(g_read(V, N1), 'value after an increment').
im(1, _, V, G, O, R, N, N1) :- O = N, R = N1, ck(G, 'increment with the right values'), ck(g_read(V, N1), 'value after an increment').
im(2, K, V, G, O, _, N, _) :- K >= 1, K =\= 2, K =\= 4, K =\= 6, gs_int(o, -3, 3, O), O =\= N, !, no(G, 'increment with a wrong old value'), ck(g_read(V, N), 'value after a failed increment').
im(3, K, V, G, O, _, N, _) :- K >= 1, K =\= 2, K =\= 4, K =\= 6, !, O = foo, err(G, type_error(integer,foo), 'increment with an atom'), ck(g_read(V, N), 'value after an error').
im(_, _, _, _, _, _, _, _) :- gs_assume(0).
scn(3) :- gs_int(n, -1152921504606846976, 1152921504606846975, N), gs_int(bit, 0, 1152921504606846975, B), g_assign(a, N), bitno(B, Bm), gs_choice(4, K), bop(K, N, B, Bm).
bitno(B, M) :- M is B mod 61.
bitv(M, W) :- ( M =:= 60 -> W = -1152921504606846976 ; W is 1<<M ).
bop(0, N, B, M) :- bitv(M, W), E is N \/ W, ck(g_set_bit(a, B), g_set_bit), ck((g_read(a, R), R =:= E), 'g_set_bit value').
bop(1, N, B, M) :- bitv(M, W), E is N /\ \ W, ck(g_reset_bit(a, B), g_reset_bit), ck((g_read(a, R), R =:= E), 'g_reset_bit value').
bop(2, N, B, M) :- ( (N >> M) /\ 1 =:= 1 -> ck(g_test_set_bit(a, B), g_test_set_bit) ; no(g_test_set_bit(a, B), g_test_set_bit) ), ck(g_read(a, N), 'test changes the value').
bop(3, N, B, M) :- ( (N >> M) /\ 1 =:= 0 -> ck(g_test_reset_bit(a, B), g_test_reset_bit) ; no(g_test_reset_bit(a, B), g_test_reset_bit) ), ck(g_read(a, N), 'test changes the value').
% argument selectors
scn(4) :- gs_int(n, -9, 9, N), gs_pick([f(1,g(X,N),X),[N,p(Y),Y,4],f([1,2],q)], T), gs_choice(2, L), ( L =:= 0 -> g_assign(a, T) ; g_link(a, T) ), gs_pick([0,1,2,3,4,5,-1], I), gs_pick([no,1,2,0,3], J), gs_pick([N,k,h(N,_,1),_,[N]], V),
	( J == no -> G = a-I ; G = a-I-J ),
	( sub(T, I, S1), ( J == no -> S = S1 ; sub(S1, J, S) ) -> ck(g_read(G, R), 'g_read of an argument'), vck(R, S),
		( L =:= 0 -> ck(g_assign(G, V), 'g_assign to an argument'), setsub(T, I, J, V, E), g_read(a, R2), vck(R2, E), err(g_assignb(G, V), domain_error(g_argument_selector,_), 'g_assignb to an argument'), g_read(a, R3), vck(R3, E) ; compound(V), nonvar(S) -> ck(g_assign(G, V), 'g_assign to an argument'), copy_term(T, T1), setsub(T1, I, J, V, E), g_read(a, R2), vck(R2, E) ; true )
	; err(g_read(G, _), domain_error(g_argument_selector,_), 'invalid selector'), err(g_assign(G, V), domain_error(g_argument_selector,_), 'invalid selector'), g_read(a, R), vck(R, T) ).
sub(T, _, _) :- var(T), !, fail.
sub([X|L], I, S) :- !, I >= 1, I1 is I-1, I1 >= 0, snth(I1, [X|L], S).
sub(T, I, S) :- compound(T), functor(T, _, A), I >= 1, I =< A, arg(I, T, S).
snth(0, [X|_], X) :- !.
snth(I, [_|L], X) :- I1 is I-1, snth(I1, L, X).
setsub(T, I, no, V, E) :- !, ss(T, I, V, E).
setsub(T, I, J, V, E) :- sub(T, I, S), ss(S, J, V, S1), ss(T, I, S1, E).
ss([X|L], 1, V, [V|L]) :- !, ( X = X -> true ).
ss([X|L], I, V, [X|L1]) :- !, I1 is I-1, ss(L, I1, V, L1).
ss(T, I, V, E) :- T =.. [F|As], I1 is I-1, rp(I1, As, V, Bs), E =.. [F|Bs].
% indirect indexes and argument numbers
scn(5) :- gs_int(k, -2, 4, K0), gs_conc(K0, K), gs_choice(2, Au), ( Au =:= 0 -> g_assign(w, g_array([10,11,12])) ; g_assign(w, g_array_auto([10,11,12])) ), gs_choice(3, How), ind(How, K, I),
	( K < 0 -> err(g_read(w(I), _), domain_error(g_array_index,_), 'negative indirect index') ; K < 3 -> E is 10+K, ck(g_read(w(I), E), 'indirect index') ; Au =:= 0 -> err(g_read(w(I), _), domain_error(g_array_index,_), 'indirect index too large') ; ck(g_read(w(I), 0), 'indirect index of an automatic array') ),
	g_assign(t, f(a,b,c)), ( K >= 1, K =< 3 -> arg(K, f(a,b,c), A), ck(g_read(t-I, A), 'indirect selector') ; err(g_read(t-I, _), domain_error(g_argument_selector,_), 'indirect selector') ).
ind(0, K, i) :- g_assign(i, K).
ind(1, K, i) :- g_link(i, X), X = K.
ind(2, K, v(0)-1) :- g_assign(v, g_array(1,s(K))).
% an indirect index that expands the array itself; ill-formed names
scn(6) :- gs_choice(8, C), mis(C).
mis(0) :- g_assign(w, g_array_auto(2, g_array_auto(2))), gs_pick([3,9,40], B), ck(g_assign(w(0,w(B,0)), x), 'index of the same array'), ck(g_read(w(0,0), x), 'element assigned'), ck(g_read(w(B,1), 0), 'element of the expanded part').
mis(1) :- err(g_assign(_, 1), instantiation_error, name), err(g_read(_, 1), instantiation_error, name), err(g_inc(_), instantiation_error, name).
mis(2) :- gs_int(n, -5, 5, N), err(g_assign(N, 1), type_error(callable,N), name), err(g_read(N, _), type_error(callable,N), name), err(g_set_bit(N, 1), type_error(callable,N), name).
mis(3) :- g_assign(w, g_array(2)), err(g_read(w(_), _), instantiation_error, index), err(g_read(w(0,0), _), domain_error(g_array_index,w(0,0)), index), err(g_read(w-1, _), domain_error(g_argument_selector,w-1), selector), err(g_inc(w), type_error(integer,g_array), increment), err(g_set_bit(w, 1), type_error(integer,g_array), bit).
mis(4) :- g_assign(a, foo), err(g_read(a(0), _), domain_error(g_array_index,a(0)), index), err(g_read(a-1, _), domain_error(g_argument_selector,a-1), selector), err(g_inc(a), type_error(integer,foo), increment), err(g_test_set_bit(a, 1), type_error(integer,foo), bit), ck(g_read(a, foo), value).
mis(5) :- g_assign(a, 5), err(g_set_bit(a, _), instantiation_error, bit), err(g_set_bit(a, x), type_error(integer,x), bit), gs_int(n, -5, -1, N), err(g_reset_bit(a, N), domain_error(not_less_than_zero,N), bit), ck(g_read(a, 5), value).
mis(6) :- g_assign(w, g_array_auto(1)), gs_pick([1048577,1152921504606846975,4294967296], I), err(g_read(w(I), _), domain_error(g_array_index,w(I)), 'large index'), ck(g_array_size(w, 1), size).
mis(7) :- g_assign(w, g_array(2)), gs_choice(3, K), g7(K).
g7(0) :- err(g_array_size(w, x), type_error(integer,x), size).
g7(1) :- ( g_assignb(w(0), q), g_assignb(w(1), q), g_assign(w, 3), fail ; true ), ck(g_read(w, 3), 'g_assign is undone').
g7(2) :- ( g_assignb(w(0), q), g_assignb(w, g_array_extend(5)), g_assign(w(0), r), g_assignb(w(4), s), ck(g_read(w, g_array([r,0,0,0,s])), extended), fail ; true ), ck(g_read(w, g_array([0,0])), restored).
