% writing a term and reading it again
:- discontiguous(scn/1).
gs_scn :- ops, gs_choice(5, S), gs_reach(S), scn(S).
ops :- op(700, xfx, ===>), op(200, xfy, **), op(900, fy, not), op(300, fx, pf), op(100, yf, post), op(150, xf, ex), op(700, xfx, pf), op(200, fy, post), op(1150, fx, dyn), op(1000, yfx, and), op(999, xfy, w).

rt(T) :- gs_choice(3, K), ( wr(K, T, L) -> true ; gs_fail('writing fails') ), dot(L, L1), gs_try(read_term_from_codes(L1, U, []), R), ( R == yes, t02_variant(T, U) -> true ; gs_out(K), atom_codes(A, L), gs_out(A), gs_out(R), gs_out(U), gs_fail('a written term reads back as another term') ).
:- foreign(t02_variant(term,term)).
wr(0, T, L) :- writeq_to_codes(L, T).
wr(1, T, L) :- write_canonical_to_codes(L, T).
wr(2, T, L) :- write_term_to_codes(L, T, [quoted(true),ignore_ops(true)]).
dot([], " .").
dot([H|T], [H|R]) :- dot(T, R).
app([], L, L).
app([H|T], L, [H|R]) :- app(T, L, R).

leaf(T) :- gs_pick([a,1,-1,_,[],-,pf,post,(:-),{},'A b',- 1.5,',','|',+,\,not,[a]], T).
leaf2(T) :- gs_pick([a,1,-1,_,-,pf,post,(:-),'|'], T).
leaf3(T) :- gs_pick([a,-1,-], T).
un(F) :- gs_pick([-,\,not,pf,post,ex,dyn,(:-),f,{},+,'A'], F).
bi(F) :- gs_pick([-,+,',',;,=,pf,^,**,(:-),post,is,->,'|',and,w,f,===>,'.',*,\,:], F).
bis(F) :- gs_pick([-,',',pf,^,**,(:-),'|',and,w,f,'.',*], F).
uns(F) :- gs_pick([-,\,not,pf,post,ex,dyn,(:-)], F).
% 0: one operator and any operands
scn(0) :- gs_choice(2, K), ( K =:= 0 -> un(F), leaf(X), T =.. [F,X] ; bi(F), leaf(X), leaf2(Y), T =.. [F,X,Y] ), rt(T).
% 1: two operators
scn(1) :- gs_choice(4, K), two(K, T), rt(T).
two(0, T) :- un(F), un(G), leaf(X), T0 =.. [G,X], T =.. [F,T0].
two(1, T) :- un(F), bi(G), leaf3(X), leaf3(Y), T0 =.. [G,X,Y], T =.. [F,T0].
two(2, T) :- bi(F), un(G), leaf3(X), leaf3(Y), T0 =.. [G,X], gs_choice(2, P), ( P =:= 0 -> T =.. [F,T0,Y] ; T =.. [F,Y,T0] ).
two(3, T) :- bi(F), bi(G), T0 =.. [G,a,X], leaf3(X), gs_choice(2, P), ( P =:= 0 -> T =.. [F,T0,b] ; T =.. [F,-1,T0] ).
% 2: three operators, and operators in arguments, lists and braces
scn(2) :- gs_choice(4, K), three(K, T), rt(T).
three(0, T) :- bis(F), bis(G), uns(H), T0 =.. [H,1], gs_choice(2, P), ( P =:= 0 -> T1 =.. [G,a,T0] ; T1 =.. [G,T0,a] ), gs_choice(2, Q), ( Q =:= 0 -> T =.. [F,T1,b] ; T =.. [F,b,T1] ).
three(1, T) :- uns(F), bis(G), uns(H), T0 =.. [H,a], gs_choice(2, P), ( P =:= 0 -> T1 =.. [G,-,T0] ; T1 =.. [G,T0,-] ), T =.. [F,T1].
three(2, T) :- gs_choice(2, K), ( K =:= 0 -> bi(F), leaf3(X), leaf3(Y), T0 =.. [F,X,Y] ; un(F), leaf(X), T0 =.. [F,X] ), gs_pick([f(T0,b),[T0,b],[b|T0],{T0},g(T0),[T0|b],-(T0)], T).
three(3, T) :- bis(F), bis(G), bis(H), T0 =.. [F,a,b], T1 =.. [G,c,d], T =.. [H,T0,T1].
% 3: atoms: any character, sequences of significant characters; alone, as functor, as operand
scn(3) :- gs_choice(2, K), ( K =:= 0 -> gs_int(c, 1, 255, C0), gs_conc(C0, C), L = [C] ; gs_bound(chars, M), gs_choice(M, N), chs(N, L) ), atom_codes(A, L), gs_pick([A,A-A,- A,A=b,[A|A],f(A),- - A], T0), gs_choice(3, P), ( P =:= 0 -> T = T0 ; P =:= 1 -> T =.. [A,a], T0 == A ; T =.. [A,a,b], T0 == A ), rt(T).
scn(3) :- gs_assume(0).
chs(0, []) :- !.
chs(N, [C|L]) :- gs_pick([0'a,0'A,0'_,0'1,0'+,0'.,32,39,0'\\,10,0'/,0'*,0',,0'|,0'[,0'],0'{,0'},0'(,0'!,0'",0'`,233,0'%], C), N1 is N-1, chs(N1, L).
% 4: any text that can be read: the term reads back when written
scn(4) :- gs_bound(text, M), gs_choice(M, N), txt(N, L), dot(L, L1), gs_try(read_term_from_codes(L1, T, []), R), ( R == yes -> rt(T) ; R = err(syntax_error(_)) -> true ; gs_out(L), gs_out(R), gs_fail('reading a text') ).
txt(0, []) :- !.
txt(N, [C|L]) :- gs_pick([0'a,0'X,0'1,0'-,0'*,0'(,0'),0'[,0'],0'{,0'},0',,0'|,39,32,0'.,0'\\,0'",0'0], C), N1 is N-1, txt(N1, L).
