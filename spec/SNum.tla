-------------------------------- MODULE SNum --------------------------------
(* Signed integers of arbitrary size: <<sign, magnitude>>, sign in {-1,0,1}. *)
EXTENDS BigNat

SFromInt(i) == <<IF i < 0 THEN -1 ELSE IF i = 0 THEN 0 ELSE 1, BFromInt(IF i < 0 THEN -i ELSE i)>>
SPos(m) == <<IF m = BZero THEN 0 ELSE 1, m>>
SNeg(x) == <<0 - x[1], x[2]>>
SCmp(x, y) ==
    IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
    ELSE IF x[1] >= 0 THEN BCmp(x[2], y[2]) ELSE BCmp(y[2], x[2])
SAdd(x, y) ==
    IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF x[1] = y[1] THEN <<x[1], BAdd(x[2], y[2])>>
    ELSE LET c == BCmp(x[2], y[2]) IN
         IF c = 0 THEN <<0, BZero>>
         ELSE IF c > 0 THEN <<x[1], BSub(x[2], y[2])>> ELSE <<y[1], BSub(y[2], x[2])>>
SSub(x, y) == SAdd(x, SNeg(y))
SMul(x, y) == <<x[1] * y[1], BMul(x[2], y[2])>>
(* Euclidean division: x = q*y + r with 0 <= r < |y|, y # 0 *)
SDiv(x, y) ==
    IF x[1] = 0 THEN <<0, BZero>>
    ELSE LET q == BDiv(x[2], y[2])
             r == BMod(x[2], y[2])
         IN IF x[1] > 0 THEN (IF q = BZero THEN <<0, BZero>> ELSE <<y[1], q>>)
            ELSE LET q2 == IF r = BZero THEN q ELSE BAdd(q, BOne)   \* magnitude of the quotient
                 IN <<0 - y[1], q2>>
(* x^e for a TLC integer e >= 0 *)
SPow(x, e) ==
    IF e = 0 THEN <<1, BOne>>
    ELSE IF x[1] = 0 THEN <<0, BZero>>
    ELSE <<IF x[1] > 0 \/ e % 2 = 0 THEN 1 ELSE -1, BPow(x[2], e)>>
=============================================================================
