ef(0, X, Y, Z) :- Z is X+Y.
ef(1, X, Y, Z) :- Z is X-Y.
ef(2, X, Y, Z) :- Z is X*Y.
ef(3, X, Y, Z) :- Z is X//Y.
ef(4, X, Y, Z) :- Z is X div Y.
ef(5, X, Y, Z) :- Z is X rem Y.
ef(6, X, Y, Z) :- Z is X mod Y.
ef(7, X, Y, Z) :- Z is X/\Y.
ef(8, X, Y, Z) :- Z is X\/Y.
ef(9, X, Y, Z) :- Z is xor(X,Y).
ef(10, X, Y, Z) :- Z is X<<Y.
ef(11, X, Y, Z) :- Z is X>>Y.
ef(14, X, Y, Z) :- Z is gcd(X,Y).
ef(15, X, Y, Z) :- Z is X^Y.
ef(16, X, _, Z) :- Z is -X.
ef(17, X, _, Z) :- Z is inc(X).
ef(18, X, _, Z) :- Z is dec(X).
ef(19, X, _, Z) :- Z is \X.
ef(20, X, _, Z) :- Z is abs(X).
ef(21, X, _, Z) :- Z is sign(X).
ef(22, X, _, Z) :- Z is lsb(X).
ef(23, X, _, Z) :- Z is msb(X).
ef(24, X, _, Z) :- Z is popcount(X).
ef(25, X, _, Z) :- Z is +(X).
ef(26, X, Y, Z) :- Z is (X+Y)*3-(X-Y)//2.
ef(27, X, Y, Z) :- Z is X-(Y-(X+1))-(-Y).
ef(28, X, _, Z) :- Z is X+1.
ef(29, X, _, Z) :- Z is X-1.
ef(30, X, _, Z) :- Z is 7-X.
ef(31, X, _, Z) :- Z is X*5.
ef(32, X, _, Z) :- Z is X+(-3).
ef(35, X, _, Z) :- Z is X.
ef(12, X, Y, Z) :- X < Y, !, Z = X.
ef(12, _, Y, Y).
ef(13, X, Y, Z) :- X >= Y, !, Z = X.
ef(13, _, Y, Y).
ef(33, X, _, Z) :- Z is -(-(X)).
ef(34, X, _, Z) :- Z is (X/\255)+(X>>8).
