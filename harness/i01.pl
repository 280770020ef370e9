% streams: every operation against a model of a stream as a sequence of characters and a position
:- discontiguous(scn/1).
:- foreign(i01_mk(+integer,term)).
:- foreign(i01_rd(+integer,-term)).
:- foreign(i01_char(+integer,-term)).
gs_scn :- gs_choice(9, S), gs_reach(S), scn(S).

app([], L, L).
app([H|T], L, [H|R]) :- app(T, L, R).
len([], 0).
len([_|T], N) :- len(T, M), N is M+1.
nth_(0, [X|_], X) :- !.
nth_(N, [_|L], X) :- N > 0, M is N-1, nth_(M, L, X).
pre(0, _, []) :- !.
pre(N, [X|L], [X|R]) :- M is N-1, pre(M, L, R).
drop(0, L, L) :- !.
drop(N, [_|L], R) :- M is N-1, drop(M, L, R).
bytes(0, _, []) :- !.
bytes(N, Lo, [B|L]) :- gs_int(b, Lo, 255, B), M is N-1, bytes(M, Lo, L).
% number of new lines and distance to the last one in the first P characters
lc(P, Bs, LC, LP) :- lc(P, Bs, 0, 0, LC, LP).
lc(0, _, LC, LP, LC, LP) :- !.
lc(P, [B|Bs], C, K, LC, LP) :- P1 is P-1, ( B =:= 10 -> C1 is C+1, K1 = 0 ; C1 = C, K1 is K+1 ), lc(P1, Bs, C1, K1, LC, LP).

% state: st(Past, Pos, PB, Act, Saved, Counts, Type), PB = pushed back characters
% read or peek: the result is C or err
see(Bs, st(yes,P,PB,error,V,K,Ty), err, st(yes,P,PB,error,V,K,Ty)) :- !.
see(_, st(yes,P,PB,eof_code,V,K,Ty), -1, st(yes,P,PB,eof_code,V,K,Ty)) :- !.
see(Bs, st(yes,P,_,reset,V,_,Ty), C, St) :- !, ( Ty == term -> P1 = P ; P1 = 0 ), see(Bs, st(no,P1,[],reset,V,k(y,P1),Ty), C, St).
see(_, st(no,P,[X|PB],A,V,K,Ty), X, st(no,P,[X|PB],A,V,K,Ty)) :- !.
see(Bs, st(no,P,[],A,V,K,Ty), C, st(no,P,[],A,V,K,Ty)) :- ( nth_(P, Bs, C0) -> C = C0 ; C = -1 ).
get(Bs, St0, C, St) :- see(Bs, St0, C, St1), ( C == err -> St = St1 ; adv(C, St1, St) ).
adv(C, st(_,P,PB,A,V,K,Ty), St) :- ( C =:= -1 -> St = st(yes,P,PB,A,V,K,Ty) ; P1 is P+1, ( PB = [_|PB1] -> true ; PB1 = [] ), St = st(no,P1,PB1,A,V,K,Ty) ).
eos(Bs, st(Past,P,PB,A,_,_,_), E) :- ( A == reset -> E = not ; Past == yes -> E = past ; PB = [], \+ nth_(P, Bs, _) -> E = at ; E = not ).
past_err(S, permission_error(input,past_end_of_stream,S)).
% an input predicate G whose last argument X is the character, given C expected
inp(G, X, C, S, M) :- ( C == err -> E = err ; E = ok ), inp(E, G, X, C, S, M).
inp(Er, G, X, C, S, M) :- gs_try(G, R), ( Er == err -> past_err(S, E), ( R == err(E) -> true ; gs_out(R), gs_fail(M) ) ; R == yes, nonvar(X), X = C -> true ; gs_out(G), gs_out(R), gs_out(C), gs_fail(M) ).
inpc(G, X, C, S, M) :- ( C == err -> inp(err, G, X, C, S, M) ; i01_char(C, D), inp(ok, G, X, D, S, M) ).

counts(Bs, S, st(_,P,_,_,_,k(K,_),Ty)) :- ( K == y -> character_count(S, CC), ( CC =:= P -> true ; gs_out(CC-P), gs_fail('character_count/2') ) ; true ),
	( Ty == bin -> true ; lc(P, Bs, LC, LP), line_count(S, LC1), ( LC =:= LC1 -> true ; gs_fail('line_count/2') ), line_position(S, LP1), ( LP =:= LP1 -> true ; gs_out(LP1-LP), gs_fail('line_position/2') ), stream_line_column(S, L2, C2), ( L2 =:= LC+1, C2 =:= LP+1 -> true ; gs_fail('stream_line_column/3') ) ),
	( Ty == term -> true ; stream_position(S, '$stream_position'(O,_,_,_)), ( O =:= P -> true ; gs_out(O-P), gs_fail('the offset of a stream position') ) ).

% Mode: 0 = codes, 1 = characters
steps(0, _, _, _, _) :- !.
steps(N, Mode, Bs, S, St0) :- M2 is Mode+2, gs_pick([Mode,M2,4,5,6,7,8,9], Op), ( step(Op, Bs, S, St0, St) -> true ; gs_out(Op), gs_fail('an operation fails') ), counts(Bs, S, St), M is N-1, steps(M, Mode, Bs, S, St).
step(0, Bs, S, St0, St) :- get(Bs, St0, C, St), inp(get_code(S,X), X, C, S, 'get_code/2').
step(1, Bs, S, St0, St) :- get(Bs, St0, C, St), inpc(get_char(S,X), X, C, S, 'get_char/2').
step(2, Bs, S, St0, St) :- see(Bs, St0, C, St), inp(peek_code(S,X), X, C, S, 'peek_code/2').
step(3, Bs, S, St0, St) :- see(Bs, St0, C, St), inpc(peek_char(S,X), X, C, S, 'peek_char/2').
step(4, Bs, S, St, St) :- eos(Bs, St, E), ( at_end_of_stream(S) -> E1 = yes ; E1 = no ), ( E == not -> E1 == no ; E1 == yes ), stream_property(S, end_of_stream(E2)), ( E == E2 -> true ; gs_fail('end_of_stream/1') ).
step(5, _, S, st(Past,P,PB,_,V,K,Ty), st(Past,P,PB,A,V,K,Ty)) :- gs_pick([error,eof_code,reset], A), set_stream_eof_action(S, A), ck(stream_property(S, eof_action(A)), 'eof_action/1').
step(6, Bs, S, st(_,P,PB,A,V,K,Ty), st(no,P1,[X|PB],A,V,K,Ty)) :- ( P =:= 0 -> gs_assume(0) ; true ), P1 is P-1, ( nth_(P1, Bs, B) -> true ; gs_assume(0) ), ( B =:= 10 -> K = k(_,Base), ( P > Base -> true ; gs_assume(0) ), X = 10 ; gs_int(u, 0'a, 0'c, X) ), gs_choice(2, K1), ( Ty == bin -> unget_byte(S, X) ; K1 =:= 0 -> unget_code(S, X) ; i01_char(X, XC), unget_char(S, XC) ).
step(7, Bs, S, st(Past,P,PB,A,V,K,Ty), st(Past,P,PB,A,Q-Pos,K,Ty)) :- Ty \== term, !, stream_position(S, Pos), Q = P, ck(stream_property(S, position(Pos)), 'position/1'), Pos = '$stream_position'(_,_,LC,LP), ( Ty == bin -> true ; lc(P, Bs, LC1, LP1), ck((LC =:= LC1, LP =:= LP1), 'stream_position/2') ).
step(7, _, S, St, St) :- stream_position(S, Pos), err(set_stream_position(S, Pos), permission_error(reposition,stream,S), 'set_stream_position/2 on a stream that cannot be repositioned'), err(set_stream_line_column(S, 1, 1), permission_error(reposition,stream,S), 'set_stream_line_column/3 on a stream that cannot be repositioned'), err(seek(S, bof, 0, _), permission_error(reposition,stream,S), 'seek/4 on a stream that cannot be repositioned').
step(8, _, S, st(_,_,_,A,V,_,Ty), st(no,Q,[],A,V,k(K,Q),Ty)) :- ( V = Q-Pos -> true ; gs_assume(0) ), set_stream_position(S, Pos), ( Ty == bin -> K = n ; K = y ).
step(9, Bs, S, St0, St) :- St0 = st(_,_,_,A,V,_,Ty), ( Ty == file -> true ; gs_assume(0) ), gs_bound(lines, Li), ( Li =:= 0 -> gs_pick([1-1,1-2,2-1,2-2,1-9,0-1], L-C) ; gs_int(l, 0, Li, L0), gs_conc(L0, L), gs_int(c, 0, 4, C0), gs_conc(C0, C) ), ( find(Bs, L, C, P) -> ck(set_stream_line_column(S, L, C), 'set_stream_line_column/3'), St = st(no,P,[],A,V,k(y,P),Ty) ; no(set_stream_line_column(S, L, C), 'set_stream_line_column/3 at a position that does not exist'), St = St0 ).
% binary
step(10, Bs, S, St0, St) :- get(Bs, St0, C, St), inp(get_byte(S,X), X, C, S, 'get_byte/2').
step(11, Bs, S, St0, St) :- see(Bs, St0, C, St), inp(peek_byte(S,X), X, C, S, 'peek_byte/2').
step(12, Bs, S, St0, St) :- St0 = st(_,P,_,A,V,_,Ty), gs_pick([bof,current,eof], W), gs_int(o, -2, 3, O0), gs_conc(O0, O), len(Bs, N), ( W == bof -> T = O ; W == current -> T is P+O ; T is N+O ), ( T >= 0 -> seek(S, W, O, X), ( X =:= T -> true ; gs_out(W-O), gs_out(X-T), gs_fail('seek/4 gives another offset') ), St = st(no,T,[],A,V,k(n,T),Ty) ; no(seek(S, W, O, _), 'seek/4 before the beginning'), St = St0 ).

find(Bs, L, C, P) :- L >= 1, C >= 1, fl(L, Bs, 0, Bs1, P0), fc(C, Bs1, P0, P).
fl(1, Bs, P, Bs, P) :- !.
fl(L, [B|Bs], P, Bs1, P1) :- P2 is P+1, ( B =:= 10 -> L1 is L-1 ; L1 = L ), fl(L1, Bs, P2, Bs1, P1).
fc(1, _, P, P) :- !.
fc(C, [B|Bs], P, P1) :- B =\= 10, C1 is C-1, P2 is P+1, fc(C1, Bs, P2, P1).

acts(A, Os) :- gs_bound(lines, Li), ( Li =:= 0 -> gs_choice(3, K) ; gs_choice(4, K) ), ( K =:= 3 -> A = eof_code, Os = [] ; nth_(K, [error,eof_code,reset], A), Os = [eof_action(A)] ).
% 0: a text file
scn(0) :- gs_bound(bytes, M), M1 is M+1, gs_choice(M1, N), bytes(N, 1, Bs), i01_mk(0, Bs), acts(A, Os), open('gs_i01.dat', read, S, Os), gs_bound(n, K), stream_position(S, Pos), gs_choice(2, Mode), steps(K, Mode, Bs, S, st(no,0,[],A,0-Pos,k(y,0),file)).
% 1: a list of codes or an atom as a stream
scn(1) :- gs_bound(bytes, M), M1 is M+1, gs_choice(M1, N), bytes(N, 1, Bs), gs_choice(2, Q), ( Q =:= 0 -> open_input_codes_stream(Bs, S) ; chars(Bs, Cs), open_input_chars_stream(Cs, S) ), ck(stream_property(S, eof_action(A)), 'eof_action/1'), gs_bound(n, K), gs_choice(2, Mode), steps(K, Mode, Bs, S, st(no,0,[],A,none,k(y,0),term)),
	( Q =:= 0 -> close_input_codes_stream(S) ; close_input_chars_stream(S) ), err(get_code(S, _), existence_error(stream,S), 'a closed stream').
chars([], []).
chars([C|L], [A|M]) :- i01_char(C, A), chars(L, M).
% 2: a binary file
scn(2) :- gs_bound(bytes, M), M1 is M+1, gs_choice(M1, N), bytes(N, 0, Bs), i01_mk(0, Bs), acts(A, Os), open('gs_i01.dat', read, S, [type(binary)|Os]), gs_bound(n, K), bsteps(K, Bs, S, st(no,0,[],A,none,k(y,0),bin)).
bsteps(0, _, _, _) :- !.
bsteps(N, Bs, S, St0) :- gs_pick([10,11,12,4,5,7,8,6], Op), ( step(Op, Bs, S, St0, St) -> true ; gs_out(Op), gs_fail('an operation fails') ), counts(Bs, S, St), M is N-1, bsteps(M, Bs, S, St).

% 3: text output: out(Pos, Bytes); the file finally contains what was written
scn(3) :- gs_choice(2, Ap), ( Ap =:= 0 -> Mode = write, I = [] ; Mode = append, I = [0'x,10] ), i01_mk(1, [0'x,10]), open('gs_i01.out', Mode, S), gs_bound(out, K), outs(K, S, Ap, o(0,I,[],none), o(_,Bs,_,_)), close(S), i01_rd(1, L), ( L == Bs -> true ; gs_out(L), gs_out(Bs), gs_fail('a file does not contain what was written') ).
outs(0, _, _, O, O) :- !.
outs(N, S, Ap, O0, O) :- ( Ap =:= 0 -> gs_choice(9, Op) ; gs_choice(7, Op) ), ( ost(Op, S, O0, O1) -> true ; gs_out(Op), gs_fail('an output operation fails') ), ocounts(S, O1), M is N-1, outs(M, S, Ap, O1, O).
ost(0, S, O0, O) :- gs_int(p, 1, 255, C), i01_char(C, A), put_char(S, A), wr([C], O0, O).
ost(1, S, O0, O) :- gs_int(p, 1, 255, C), put_code(S, C), wr([C], O0, O).
ost(2, S, O0, O) :- nl(S), wr([10], O0, O).
ost(3, S, O0, O) :- write(S, 'ab c'), wr([0'a,0'b,32,0'c], O0, O).
ost(4, S, O0, O) :- set_output(S), gs_choice(2, K), ( K =:= 0 -> put_char(z), nl ; put_code(0'z), write('\n') ), wr([0'z,10], O0, O).
ost(5, S, O0, O) :- format(S, "x~ny~a", [[]]), wr([0'x,10,0'y,0'[,0']], O0, O).
ost(6, S, O, O) :- flush_output(S).
ost(7, S, o(P,B,W,_), o(P,B,W,p(P,W,Pos))) :- stream_position(S, Pos).
ost(8, S, o(_,B,_,V), o(P,B,W,V)) :- ( V = p(P,W,Pos) -> true ; gs_assume(0) ), set_stream_position(S, Pos).
% W: the characters before the position, since the opening
wr(L, o(P,B,W,V), o(P1,B1,W1,V)) :- len(L, N), P1 is P+N, app(W, L, W1), ( len(B, K), Q is K-P, V \= none, Q > 0, len(W, P) -> pre(P, B, B0), ( Q > N -> R is P+N, drop(R, B, B2) ; B2 = [] ), app(B0, L, B3), app(B3, B2, B1) ; app(B, L, B1) ).
ocounts(S, o(P,_,W,_)) :- character_count(S, C), ( C =:= P -> true ; gs_fail('character_count/2 of an output stream') ), lc(P, W, LC, LP), line_count(S, C1), ( C1 =:= LC -> true ; gs_fail('line_count/2 of an output stream') ), line_position(S, C2), ( C2 =:= LP -> true ; gs_fail('line_position/2 of an output stream') ).
% 4: binary output, and the output of a term stream
scn(4) :- gs_choice(3, K), so(K).
so(0) :- gs_choice(2, Ap), i01_mk(1, [1]), ( Ap =:= 0 -> open('gs_i01.out', write, S, [type(binary)]), I = [] ; open('gs_i01.out', append, S, [type(binary)]), I = [1] ), gs_bound(out, M), M1 is M+1, gs_choice(M1, N), bytes(N, 0, Bs), pb(Bs, S), character_count(S, C), ck(C =:= N, 'character_count/2'), err(put_char(S, a), permission_error(output,binary_stream,S), 'put_char/2 on a binary stream'), err(line_count(S, _), permission_error(access,binary_stream,S), 'line_count/2 of a binary stream'), close(S), app(I, Bs, L), i01_rd(1, L1), ck(L == L1, 'put_byte/2').
so(K) :- K > 0, gs_bound(out, M), M1 is M+1, gs_choice(M1, N), bytes(N, 1, Bs), ( K =:= 1 -> open_output_codes_stream(S) ; open_output_chars_stream(S) ), pc(Bs, S), write(S, f('A')), app(Bs, [0'f,0'(,0'A,0')], L), character_count(S, C), ck(C =:= N+4, 'character_count/2'), err(close(S), system_error(_), 'close/1 of a term stream'), ( K =:= 1 -> close_output_codes_stream(S, R), R1 = L ; close_output_chars_stream(S, R), chars(L, R1) ), ck((ground(R), R = R1), 'the term of an output term stream'), err(put_code(S, 65), existence_error(stream,S), 'a closed stream').
pb([], _).
pb([B|L], S) :- put_byte(S, B), pb(L, S).
pc([], _).
pc([B|L], S) :- put_code(S, B), pc(L, S).
% 5: mirrors: what is read or written is also written to the mirror, as long as it is one
scn(5) :- gs_choice(2, Dir), gs_bound(bytes, N), bytes(N, 1, Bs), ( Dir =:= 0 -> i01_mk(0, Bs), open('gs_i01.dat', read, S) ; open('gs_i01.out', write, S) ), open('gs_i01.mir', write, M), mir(Bs, Dir, S, M, off, [], L), close(S), ( stream_property(M, output) -> close(M) ; true ), i01_rd(2, L1), ck(L == L1, 'the contents of a mirror'), ( Dir =:= 1 -> i01_rd(1, L2), ck(L2 == Bs, 'a mirrored stream') ; true ).
mir([], _, _, _, _, L, L).
mir([B|Bs], Dir, S, M, On, L0, L) :- gs_choice(4, K), mch(K, S, M, On, On1), ( Dir =:= 0 -> gs_choice(2, P), ( P =:= 1 -> peek_code(S, D0), ck(D0 == B, 'peek_code/2') ; true ), get_code(S, D), ck(D == B, 'get_code/2') ; put_code(S, B) ), ( On1 == on -> app(L0, [B], L1) ; L1 = L0 ), mir(Bs, Dir, S, M, On1, L1, L).
mch(0, S, M, On, On) :- ( On == on -> ck(current_mirror(S, M), 'current_mirror/2'), ck(stream_property(S, mirror(M)), 'mirror/1') ; no(current_mirror(S, M), 'current_mirror/2') ).
mch(1, S, M, On, On1) :- ( On == closed -> err(add_stream_mirror(S, M), existence_error(stream,M), 'add_stream_mirror/2'), On1 = On ; add_stream_mirror(S, M), On1 = on ).
mch(2, S, M, On, On1) :- ( On == closed -> err(remove_stream_mirror(S, M), existence_error(stream,M), 'remove_stream_mirror/2'), On1 = On ; On == on -> ck(remove_stream_mirror(S, M), 'remove_stream_mirror/2'), On1 = off ; no(remove_stream_mirror(S, M), 'remove_stream_mirror/2'), On1 = off ).
mch(3, S, M, On, closed) :- ( On == closed -> gs_assume(0) ; close(M) ), no(stream_property(S, mirror(_)), 'a closed stream is still a mirror').
% 6: opening, aliases, current streams, closing
scn(6) :- i01_mk(0, [0'a,0'b]), current_input(I0), current_output(O0), gs_bound(hist, N), hist(N, h([],[],I0,O0,I0,O0)).
% h(Open, Aliases, CurIn, CurOut, StdIn, StdOut): Open = list of s(Stream,Kind)
hist(0, _) :- !.
hist(N, H0) :- gs_choice(7, Op), ( hop(Op, H0, H) -> true ; gs_out(Op), gs_fail('an operation on streams fails') ), hck(H), M is N-1, hist(M, H).
hop(0, h(Os,As,CI,CO,I,O), h([s(S,K)|Os],As1,CI,CO,I,O)) :- gs_pick([in,out], K), gs_choice(2, P), ( P =:= 0 -> Opts = [], As1 = As ; gs_pick([al1,al2], Al), ( mem(Al-_, As) -> gs_assume(0) ; true ), Opts = [alias(Al)], As1 = [Al-S|As] ), fl(K, F, Mo), open(F, Mo, S, Opts), no(mem(s(S,_), Os), 'open/4 gives an open stream').
hop(1, H, H) :- H = h(_,As,_,_,_,_), gs_choice(4, K), ( K =:= 0 -> err(open('gs_no_dir/x', read, _), existence_error(source_sink,'gs_no_dir/x'), 'open/3 of no file') ; K =:= 1 -> ( As = [Al-_|_] -> true ; gs_assume(0) ), err(open('gs_i01.dat', read, _, [alias(Al)]), permission_error(open,source_sink,alias(Al)), 'open/4 with a used alias') ; K =:= 2 -> err(open('gs_i01.dat', read, _, [foo(x)]), domain_error(stream_option,foo(x)), 'open/4 with a bad option') ; err(open('gs_i01.dat', readwrite, _), domain_error(io_mode,readwrite), 'open/4 with a bad mode') ).
hop(2, h(Os,As,CI,CO,I,O), h(Os1,As1,CI1,CO1,I,O)) :- ( Os == [] -> gs_assume(0) ; gs_pick(Os, s(S,K)) ), sora(S, As, X), gs_choice(2, Q), ( Q =:= 0 -> close(X) ; close(X, [force(true)]) ), del(s(S,K), Os, Os1), delal(As, S, As1), ( CI == S -> CI1 = I ; CI1 = CI ), ( CO == S -> CO1 = O ; CO1 = CO ), err(close(S), existence_error(stream,S), 'close/1 of a closed stream'), ( X == S -> true ; err(close(X), existence_error(stream,X), 'close/1 of an old alias') ).
hop(3, h(Os,As,CI,CO,I,O), h(Os,As,CI1,CO1,I,O)) :- ( Os == [] -> gs_assume(0) ; gs_pick(Os, s(S,K)) ), sora(S, As, X), gs_choice(2, Q), ( Q =:= 0 -> ( K == in -> set_input(X), CI1 = S ; err(set_input(X), permission_error(input,stream,X), 'set_input/1'), CI1 = CI ), CO1 = CO ; ( K == out -> set_output(X), CO1 = S ; err(set_output(X), permission_error(output,stream,X), 'set_output/1'), CO1 = CO ), CI1 = CI ).
hop(4, h(Os,As,CI,CO,I,O), h(Os,As1,CI,CO,I,O)) :- ( Os == [] -> gs_assume(0) ; gs_pick(Os, s(S,_)) ), gs_pick([al1,al2], Al), gs_choice(2, Q), ( Q =:= 0 -> G = add_stream_alias(S,Al), ( mem(Al-T, As), T \== S -> err(G, permission_error(add_alias,source_sink,alias(Al)), 'add_stream_alias/2'), As1 = As ; call(G), dela(As, Al, As2), As1 = [Al-S|As2] ) ; set_stream_alias(S, Al), dela(As, Al, As2), As1 = [Al-S|As2] ).
hop(5, H, H) :- H = h(Os,As,_,_,_,_), ( Os == [] -> gs_assume(0) ; gs_pick(Os, s(S,K)) ), sora(S, As, X), ( K == in -> err(put_char(X, a), permission_error(output,stream,X), 'put_char/2 on an input stream'), peek_char(X, C), ck(C == a, 'peek_char/2'), err(get_byte(X, _), permission_error(input,text_stream,X), 'get_byte/2 on a text stream'), F = 'gs_i01.dat', Mo = read ; err(get_char(X, _), permission_error(input,stream,X), 'get_char/2 on an output stream'), put_char(X, a), err(put_byte(X, 1), permission_error(output,text_stream,X), 'put_byte/2 on a text stream'), F = 'gs_i01.out', Mo = write ),
	ck(stream_property(S, mode(Mo)), 'mode/1'), stream_property(S, file_name(F1)), ck(F1 == F, 'file_name/1'), ck(stream_property(S, type(text)), 'type/1'), ( K == in -> ck(stream_property(S, input), input), no(stream_property(S, output), output) ; ck(stream_property(S, output), output), no(stream_property(S, input), input) ).
hop(6, H, H) :- H = h(_,_,CI,CO,I,O), ( CI == I -> true ; peek_char(C), ck(C == a, 'peek_char/1') ), ( CO == O -> true ; put_char(b) ), err(close(_), instantiation_error, 'close/1'), err(close(f(x)), domain_error(stream_or_alias,f(x)), 'close/1'), err(close(no_al), existence_error(stream,no_al), 'close/1'), err(set_input(_), instantiation_error, 'set_input/1'), close(I), close(O).
fl(in, 'gs_i01.dat', read).
fl(out, 'gs_i01.out', write).
sora(S, As, X) :- als(As, S, L), gs_pick([S|L], X).
als([], _, []).
als([A-T|As], S, L) :- ( T == S -> L = [A|M] ; L = M ), als(As, S, M).
mem(X, [X|_]).
mem(X, [_|L]) :- mem(X, L).
del(X, [Y|L], R) :- ( X == Y -> R = L ; R = [Y|M], del(X, L, M) ).
delal([], _, []).
delal([A-T|As], S, L) :- ( T == S -> L = M ; L = [A-T|M] ), delal(As, S, M).
dela([], _, []).
dela([B-T|As], A, L) :- ( B == A -> L = M ; L = [B-T|M] ), dela(As, A, M).
hck(h(Os,As,CI,CO,_,_)) :- current_input(I), ck(I == CI, 'current_input/1'), current_output(O), ck(O == CO, 'current_output/1'), no(( mem(s(S,_), Os), \+ current_stream(S) ), 'current_stream/1 misses an open stream'), findall(S, (current_stream(S), \+ mem(s(S,_), Os)), L), len(L, N), g_read(i01_std, N0), ( integer(N0), N0 > 0 -> ck(N =:= N0, 'current_stream/1 gives a closed stream') ; g_assign(i01_std, N) ),
	no(( mem(A-S, As), \+ current_alias(S, A) ), 'current_alias/2'), no(( gs_any([al1,al2], A), current_alias(S, A), \+ mem(A-S, As) ), 'current_alias/2 gives an old alias'), no(( mem(s(S,_), Os), current_alias(S, A), mem(A, [al1,al2]), \+ mem(A-S, As) ), 'current_alias/2'), no(( mem(A-S, As), \+ stream_property(S, alias(A)) ), 'alias/1').
gs_any(L, X) :- mem(X, L).
% 7: the result argument is given; the current input
scn(7) :- bytes(2, 1, [B1,B2]), i01_mk(0, [B1,B2]), open('gs_i01.dat', read, S), gs_choice(2, K), ( K =:= 0 -> true ; set_input(S) ), gs_int(x, -1, 255, X), gs_choice(4, Op), ( Op >= 2 -> i01_char(X, Y) ; Y = X ), ( X =:= 0 -> gs_assume(0) ; true ),
	nth_(Op, [get_code(S,Y)-get_code(Y), peek_code(S,Y)-peek_code(Y), get_char(S,Y)-get_char(Y), peek_char(S,Y)-peek_char(Y)], G0-G1), ( K =:= 0 -> G = G0 ; G = G1 ), gs_try(G, R), ( X =:= B1 -> ck(R == yes, 'a given character that is the next one') ; ck(R == no, 'a given character that is not the next one') ), ( K =:= 0 -> get_code(S, Z) ; get_code(Z) ), ( Op =:= 0 -> ck(Z == B2, 'get_code/2') ; Op =:= 2 -> ck(Z == B2, 'get_char/2') ; ck(Z == B1, 'peek_char/2') ), ( K =:= 1 -> close(S), current_input(I), ck(I \== S, 'close/1 of the current input') ; true ).
% 8: reading terms: the position after the end of the term
scn(8) :- gs_pick(["a.","a. ","a.\n","f(X). b.","\n a .\n% c\n b. "," ","","a. /* */","b.%","'.'.\n\"a.\".\n"], Tx), i01_mk(0, Tx), open('gs_i01.dat', read, S), gs_choice(2, K), ( K =:= 0 -> true ; peek_code(S, _) ), ends(Tx, Es), rds(Es, 0, Tx, S).
rds([], P, Tx, S) :- gs_try(read(S, T), R), ck((R == yes, T == end_of_file), 'read/2 at the end of the file'), len(Tx, N), counts(Tx, S, st(yes,N,[],error,none,k(y,0),file)), ck(stream_property(S, end_of_stream(past)), 'end_of_stream/1 after read/2').
rds([E|Es], _, Tx, S) :- read(S, T), ck(T \== end_of_file, 'read/2'), counts(Tx, S, st(no,E,[],error,none,k(y,0),file)), gs_choice(2, K), ( K =:= 0 -> true ; peek_code(S, C), ( nth_(E, Tx, C0) -> true ; C0 = -1 ), ck(C == C0, 'peek_code/2 after read/2'), counts(Tx, S, st(no,E,[],error,none,k(y,0),file)) ), rds(Es, E, Tx, S).
ends("a.", [2]).
ends("a. ", [2]).
ends("a.\n", [2]).
ends("f(X). b.", [5,8]).
ends("\n a .\n% c\n b. ", [5,13]).
ends(" ", []).
ends("", []).
ends("a. /* */", [2]).
ends("b.%", [2]).
ends("'.'.\n\"a.\".\n", [4,10]).
