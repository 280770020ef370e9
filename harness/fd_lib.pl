% evaluation of FD constraints on integers (the oracle): fd_sat(C, R), R = 1 / 0
fd_sat(C, R) :- ( fd_b(C, R0) -> R = R0 ; R = 0 ).
fd_b(X, X) :- integer(X), !, ( X =:= 0 -> true ; X =:= 1 ).
fd_b(A #<=> B, R) :- !, fd_b(A, X), fd_b(B, Y), ( X =:= Y -> R = 1 ; R = 0 ).
fd_b(A #\<=> B, R) :- !, fd_b(A, X), fd_b(B, Y), ( X =:= Y -> R = 0 ; R = 1 ).
fd_b(A ## B, R) :- !, fd_b(A, X), fd_b(B, Y), ( X =:= Y -> R = 0 ; R = 1 ).
fd_b(A #==> B, R) :- !, fd_b(A, X), fd_b(B, Y), ( X =:= 1, Y =:= 0 -> R = 0 ; R = 1 ).
fd_b(A #\==> B, R) :- !, fd_b(A, X), fd_b(B, Y), ( X =:= 1, Y =:= 0 -> R = 1 ; R = 0 ).
fd_b(A #/\ B, R) :- !, fd_b(A, X), fd_b(B, Y), ( X =:= 1, Y =:= 1 -> R = 1 ; R = 0 ).
fd_b(A #\/\ B, R) :- !, fd_b(A, X), fd_b(B, Y), ( X =:= 1, Y =:= 1 -> R = 0 ; R = 1 ).
fd_b(A #\/ B, R) :- !, fd_b(A, X), fd_b(B, Y), ( X =:= 0, Y =:= 0 -> R = 0 ; R = 1 ).
fd_b(A #\\/ B, R) :- !, fd_b(A, X), fd_b(B, Y), ( X =:= 0, Y =:= 0 -> R = 1 ; R = 0 ).
fd_b(#\ A, R) :- !, fd_b(A, X), ( X =:= 0 -> R = 1 ; R = 0 ).
fd_b(C, R) :- C =.. [O,A,B], fd_o(O, P), fd_e(A, X), fd_e(B, Y), ( fd_c(P, X, Y) -> R = 1 ; R = 0 ).
fd_o(#=, e). fd_o(#=#, e). fd_o(#\=, n). fd_o(#\=#, n). fd_o(#<, l). fd_o(#<#, l). fd_o(#=<, k). fd_o(#=<#, k). fd_o(#>, g). fd_o(#>#, g). fd_o(#>=, h). fd_o(#>=#, h).
fd_c(e, X, Y) :- X =:= Y.
fd_c(n, X, Y) :- X =\= Y.
fd_c(l, X, Y) :- X < Y.
fd_c(k, X, Y) :- X =< Y.
fd_c(g, X, Y) :- X > Y.
fd_c(h, X, Y) :- X >= Y.
fd_e(X, X) :- integer(X), !.
fd_e(+(A), X) :- !, fd_e(A, X).
fd_e(-(A), Z) :- !, fd_e(A, X), Z is -X.
fd_e(A+B, Z) :- !, fd_e(A, X), fd_e(B, Y), Z is X+Y.
fd_e(A-B, Z) :- !, fd_e(A, X), fd_e(B, Y), Z is X-Y.
fd_e(A*B, Z) :- !, fd_e(A, X), fd_e(B, Y), Z is X*Y.
fd_e(A/B, Z) :- !, fd_e(A, X), fd_e(B, Y), Y =\= 0, X rem Y =:= 0, Z is X//Y.
fd_e(A//B, Z) :- !, fd_e(A, X), fd_e(B, Y), Y =\= 0, Z is X//Y.
fd_e(A rem B, Z) :- !, fd_e(A, X), fd_e(B, Y), Y =\= 0, Z is X rem Y.
fd_e(quot_rem(A,B,R), Z) :- !, fd_e(A, X), fd_e(B, Y), Y =\= 0, fd_e(R, V), V =:= X rem Y, Z is X//Y.
fd_e(A**B, Z) :- !, fd_e(A, X), fd_e(B, Y), fd_p(Y, X, Z).
fd_e(min(A,B), Z) :- !, fd_e(A, X), fd_e(B, Y), ( X < Y -> Z = X ; Z = Y ).
fd_e(max(A,B), Z) :- !, fd_e(A, X), fd_e(B, Y), ( X < Y -> Z = Y ; Z = X ).
fd_e(dist(A,B), Z) :- !, fd_e(A, X), fd_e(B, Y), ( X < Y -> Z is Y-X ; Z is X-Y ).
fd_p(N, X, Z) :- ( N =:= 0 -> Z = 1 ; N > 0, M is N-1, fd_p(M, X, Y), Z is X*Y ).
% fd_ins(Ps, Ls, Us): every value within its bounds
fd_ins([], [], [], 1).
fd_ins([P|Ps], [L|Ls], [U|Us], R) :- ( P < L -> R = 0 ; P > U -> R = 0 ; P < 0 -> R = 0 ; fd_ins(Ps, Ls, Us, R) ).
fd_doms([], [], []).
fd_doms([V|Vs], [L|Ls], [U|Us]) :- fd_domain(V, L, U), fd_doms(Vs, Ls, Us).
fd_asg([], []).
fd_asg([P|Vs], [P|Ps]) :- fd_asg(Vs, Ps).
