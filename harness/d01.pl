% the dynamic database against a list model
:- discontiguous(scn/1).
:- foreign(t02_variant(term,term)).
:- dynamic(p/2).
:- dynamic(gq/1).
:- dynamic(z/0).
:- dynamic(s/1).
gs_scn :- gs_choice(5, S), gs_reach(S), scn(S).

% keys: integers stay symbolic
key(i, _, X) :- big(X).
key(j, _, X) :- gs_int(k, 0, 9, X).
key(c(X), _, X).
key(v, _, _).
% any integer of two residue classes modulo the size of the hash table
big(X) :- gs_int(k, -144115188075855872, 144115188075855871, B), gs_pick([5,2], R), X is B*8+R.
keys([c(a), i, v, c(f(_)), c(1.0), c([_|_]), c(f(_,_)), c([]), c(b)]).
rkey(I, X) :- gs_bound(keys, N0), ( I =:= 0 -> N = N0 ; N is N0-1 ), keys(L), gs_choice(N, K), gs_nth(K, L, T), key(T, _, X0), copy_term(X0, X).

% the model: m(Defined, List of c(Key, Id))
init(0, []).
init(1, [c(a,1), c(a,2)]).
init(2, [c(5,1), c(_,2), c(5,3)]).
init(3, [c(f(1),1), c([1],2), c(f(_),3), c(f(a,b),4)]).
init(4, [c(_,1), c(1.0,2), c(a,3), c(_,4), c([x|_],5)]).
init(5, [c(b,1), c(a,2), c(b,3), c(a,4)]).
setup([]).
setup([c(K,I)|L]) :- cl(K, I, C), assertz(C), setup(L).
cl(K, I, C) :- ( I mod 2 =:= 0 -> C = p(K,I) ; C = (p(K,I) :- bod(I)) ).
bd(I, B) :- ( I mod 2 =:= 0 -> B = true ; B = bod(I) ).
:- public(bod/1).
bod(I) :- integer(I).

% operations on the database and on the model
op(0, K, I, m(_, L), m(1, M)) :- cl(K, I, C), assertz(C), app(L, [c(K,I)], M).
op(1, K, I, m(_, L), m(1, [c(K,I)|L])) :- cl(K, I, C), asserta(C).
op(2, K, _, m(D, L), m(D, M)) :- fst(L, K, J, M),
	( retract((p(K,J1) :- B1)) -> ( J1 == J, bd(J, B), B1 == B -> true ; gs_fail('retract/1 removed another clause') ) ; J \== 0, gs_fail('retract/1 found no clause') ; true ).
op(3, K, _, m(D, L), m(D, M)) :- rem(L, K, M), ck(retractall(p(K,_)), 'retractall/1 fails').
op(4, K, _, m(D, L), m(D, M)) :- sel(L, K, Is), rem(L, K, M), findall(J, retract((p(K,J) :- _)), Js), eq(Is, Js, 'retract/1 on backtracking removed other clauses').
op(5, _, I, m(_, _), m(0, [])) :- ck(abolish(p/2), 'abolish/1 fails'), I = I.
op(6, K, I, m(_, L), m(1, M)) :- cl(K, I, C), ( assertz(C), fail ; true ), app(L, [c(K,I)], M).
op(7, K, I, m(_, L), m(1, [c(K,I)|L])) :- cl(K, I, C), catch((asserta(C), throw(x)), x, true).
op(8, K, I, m(D, L), m(D, L)) :- ck(\+ clause(p(K,I), _), 'clause/2 finds a clause that was not added').

app([], L, L).
app([X|L], M, [X|N]) :- app(L, M, N).
mt(K, Q) :- \+ K \= Q.
sel([], _, []).
sel([c(K,I)|L], Q, R) :- ( mt(K, Q) -> R = [I|S] ; R = S ), sel(L, Q, S).
rem([], _, []).
rem([c(K,I)|L], Q, R) :- ( mt(K, Q) -> R = S ; R = [c(K,I)|S] ), rem(L, Q, S).
fst([], _, 0, []).
fst([c(K,I)|L], Q, J, R) :- ( mt(K, Q) -> J = I, R = L ; R = [c(K,I)|S], fst(L, Q, J, S) ).
eq(A, B, _) :- A == B, !.
eq(A, B, M) :- gs_out(A), gs_out(B), gs_fail(M).

% the whole contents, through every index entry and all accesses
chk(m(D, L)) :- qs(Qs), chk(Qs, D, L).
qs(L) :- gs_choice(2, C), ( C =:= 0 -> big(Q), L = [Q] ; L = [_, a, b, 5, f(_), f(1), f(_,_), [_|_], [1], 1.0, [], 7] ).
chk([], _, _).
chk([Q|Qs], D, L) :- sel(L, Q, Is),
	gs_try(findall(I, clause(p(Q,I), _), Js), R), ( R == yes -> eq(Is, Js, 'clause/2 does not give the clauses') ; gs_out(R), gs_fail('clause/2 raises an error') ),
	gs_try(findall(I, p(Q,I), Ks), R1),
	( D =:= 1 -> ( R1 == yes -> eq(Is, Ks, 'a call does not give the clauses') ; gs_out(R1), gs_fail('a call raises an error') ) ; true ), chk(Qs, D, L).

% with G = 1 erased clauses are reclaimed at every opportunity: more than 1000 erased clauses of another predicate are held by an open scan
gcon :- gs_choice(2, G), ( G =:= 0 -> true ; fill(1002), gq(_), drop ).
fill(0) :- !.
fill(N) :- assertz(gq(N)), M is N-1, fill(M).
drop :- retract(gq(_)), fail.
drop.

ini(M, L) :- gs_bound(inits, N), gs_choice(N, K), init(K, L), setup(L), M = m(1, L).

% 0: histories of operations
scn(0) :- gcon, ini(M, _), gs_bound(ops, N), run(0, N, M, M1), chk(M1).
run(N, N, M, M) :- !.
run(I, N, M, M2) :- ( I =:= 0 -> gs_choice(9, O) ; gs_choice(6, O) ), ( O =:= 5 -> K = a ; rkey(I, K) ), Id is 10+I, op(O, K, Id, M, M1), !, I1 is I+1, run(I1, N, M1, M2).
run(_, _, _, _) :- gs_fail('operation failed').

% 1: modification under iteration
scn(1) :- gcon, ini(M, L), rkey(0, Q), sel(L, Q, Is), gs_assume2(Is), gs_choice(3, W), gs_choice(2, At), g_assign(n, 0), g_assign(acc, []), g_assign(mod, M), 
	( it(W, Q, I), g_read(n, N), N1 is N+1, g_assign(n, N1), g_read(acc, A), g_assign(acc, [I|A]),
	  ( W >= 2 -> g_read(mod, m(D0, M0)), del(M0, I, M00), g_assign(mod, m(D0, M00)) ; true ),
	  N =:= At, g_read(mod, M1), run2(M1, M2), g_assign(mod, M2), fail
	; true ),
	g_read(acc, A1), rev(A1, [], A2), eq(Is, A2, 'the iteration does not see the clauses of its start'),
	g_read(mod, M3), chk(M3).
gs_assume2([_|_]) :- !.
gs_assume2(_) :- gs_assume(0).
it(0, Q, I) :- p(Q, I).
it(1, Q, I) :- clause(p(Q,I), _).
it(2, Q, I) :- retract((p(Q,I) :- _)).
del([], _, []).
del([c(K,I)|L], J, R) :- ( I =:= J -> R = L ; R = [c(K,I)|S], del(L, J, S) ).
rev([], L, L).
rev([X|L], A, R) :- rev(L, [X|A], R).
run2(M, M2) :- gs_choice(6, O), ( O =:= 5 -> K = a ; gs_choice(3, C), gs_nth(C, [a,_,5], K) ), op(O, K, 20, M, M1), !, gs_choice(3, P), ( P =:= 0 -> M2 = M1 ; P =:= 1 -> op(0, a, 21, M1, M2) ; op(4, _, 22, M1, M2) ), !.
run2(_, _) :- gs_fail('operation failed').

% 2: errors, which change nothing
scn(2) :- gs_choice(2, A), gs_pick([t(_, instantiation_error), t(3, type_error(callable,3)), t(1.5, type_error(callable,1.5)), t((_:-true), instantiation_error), t((3:-true), type_error(callable,3)), t((z:-3), type_error(callable,3)), t((z:-a,4), type_error(callable,(a,4))), t((z:-(a;1.0)), type_error(callable,(a;1.0))),
		t((atom(_):-true), permission_error(modify,static_procedure,atom/1)), t(bod(_), permission_error(modify,static_procedure,bod/1)), t((a,b), permission_error(modify,static_procedure,(',')/2)), t(append(_,_,_), permission_error(modify,static_procedure,append/3))], t(C, E)),
	( A =:= 0 -> err(assertz(C), E, 'assertz/1 error') ; err(asserta(C), E, 'asserta/1 error') ), no(clause(z, _), 'a clause was added').
scn(2) :- gs_pick([t(retract(_), instantiation_error), t(retract((_:-true)), instantiation_error), t(retract(3), type_error(callable,3)), t(retract((4:-_)), type_error(callable,4)), t(retract(atom(_)), permission_error(access_or_modify,static_procedure,atom/1)), t(retract((bod(_):-_)), permission_error(modify,static_procedure,bod/1)),
		t(retractall(_), instantiation_error), t(retractall(3), type_error(callable,3)), t(retractall(bod(_)), permission_error(modify,static_procedure,bod/1)), t(retractall(atom(_)), permission_error(modify,static_procedure,atom/1)),
		t(clause(_, _), instantiation_error), t(clause(4, _), type_error(callable,4)), t(clause(z, 5), type_error(callable,5)), t(clause(z, 1.5), type_error(callable,1.5)), t(clause(atom(_), _), permission_error(access,private_procedure,atom/1)), t(clause(init(_,_), _), permission_error(access,private_procedure,init/2)),
		t(abolish(_), instantiation_error), t(abolish(_/1), instantiation_error), t(abolish(z/_), instantiation_error), t(abolish(z), type_error(predicate_indicator,z)), t(abolish(3/1), type_error(atom,3)), t(abolish(z/a), type_error(integer,a)), t(abolish(atom/1), permission_error(modify,static_procedure,atom/1)), t(abolish(bod/1), permission_error(modify,static_procedure,bod/1)), t(abolish(f(_)/1), type_error(atom,f(_)))], t(G, E)),
	( E = permission_error(access_or_modify,T,PI) -> E1 = permission_error(_,T,PI) ; E1 = E ), assertz(z), err(G, E1, 'error of a database operation'), ck((clause(z, B), B == true), 'a clause was lost'), ck(z, 'a clause was lost').
scn(2) :- gs_int(n, -1152921504606846976, 1152921504606846975, N), ( N < 0 -> err(abolish(z/N), domain_error(not_less_than_zero,N), 'abolish/1 error') ; N > 255 -> err(abolish(z/N), representation_error(max_arity), 'abolish/1 error') ; gs_assume(0) ).

% 3: terms are stored as they are, with fresh variables
scn(3) :- V = [X,Y], gs_bound(depth, D), gs_t(D, t(V, [a,[]], -1152921504606846976, 1152921504606846975, [f/1,g/2,'.'/2]), T), copy_term(T-V, T2), gs_choice(3, W),
	st(W, T, X, Y), gs_choice(3, B), bnd(B, X, Y), gs_choice(2, U), ld(W, U, T1, X1, Y1), ( t02_variant(T1-[X1,Y1], T2) -> true ; gs_out(T1), gs_out(T2), gs_fail('the stored term is another one') ),
	ld(W, U, T3, _, _), ck(T3 = T, 'the stored term shares variables').
st(0, T, X, Y) :- assertz(s(t(T,X,Y))).
st(1, T, X, Y) :- assertz((s(Z) :- Z = t(T,X,Y))).
st(2, T, X, Y) :- assertz((s(Z) :- ( bod(1), s2(t(T,X,Y), Z) ; fail ))).
:- public(s2/2).
s2(X, X).
bnd(0, _, _).
bnd(1, X, Y) :- X = Y.
bnd(2, a, _).
ld(_, 0, T, X, Y) :- s(t(T,X,Y)), !.
ld(0, 1, T, X, Y) :- clause(s(t(T,X,Y)), true), !.
ld(1, 1, T, X, Y) :- clause(s(Z), Z = t(T,X,Y)), !.
ld(2, 1, T, X, Y) :- clause(s(Z), ( bod(1), s2(t(T,X,Y), Z) ; fail )), !.

% 4: a predicate without arguments; the running clause may be removed
:- dynamic(w/1).
:- dynamic(cnt/1).
scn(4) :- gcon, gs_pick([retract((w(_):-_)), abolish(w/1), retractall(w(_)), (retract((w(2):-_)), asserta(w(7)))], G), gs_pick([w(1), w(_)], C), gs_choice(2, P),
	( P =:= 0 -> assertz((w(1) :- G, out(1), ( true ; out(2) ), out(3))) ; assertz((w(X) :- X = 1, G, out(1), ( true ; out(2) ), out(3))) ),
	assertz((w(2) :- out(4))), assertz((w(_) :- out(5))), g_assign(acc, []), ( C, fail ; true ), g_read(acc, L),
	( G = retract(_) -> N = 3 ; G = (_, _) -> N is 2+P ; N = 1 ), ( C == w(1) -> E0 = [5] ; E0 = [4,5] ), rept(N, E0, E), rev(L, [], L1), eq(E, L1, 'a clause removed while it runs'),
	gs_out(L1).
rept(0, L, L) :- !.
rept(N, L, [1,3,2,3|M]) :- N1 is N-1, rept(N1, L, M).
:- public(out/1).
out(N) :- g_read(acc, L), g_assign(acc, [N|L]).
