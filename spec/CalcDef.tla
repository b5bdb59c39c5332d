------------------------------ MODULE CalcDef ------------------------------
(***************************************************************************)
(* Arithmetic expressions: the texts that are expressions, and their value   *)
(* by the usual rules.  Texts are sequences of character codes.              *)
(***************************************************************************)
EXTENDS SNum, FiniteSets

CSpace == 32   CMinus == 45   CPlus == 43   CTimes == 42   CDiv == 47   CPow == 94
CZero == 48    Cx == 120      Cb == 98
OpCodes == {CPlus, CMinus, CTimes, CDiv, CPow}

IsDec(c) == c \in 48..57
IsHex(c) == c \in 48..57 \/ c \in 97..102
IsBin(c) == c \in 48..49
IsUpHex(c) == c \in 65..70
DigitVal(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

SetMaxI(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMinI(S) == CHOOSE x \in S : \A y \in S : y >= x

RECURSIVE SkipSp(_, _)
SkipSp(s, i) == IF i <= Len(s) /\ s[i] = CSpace THEN SkipSp(s, i+1) ELSE i
(* first position from i on that is not a digit of the base *)
RECURSIVE DigEnd(_, _, _)
DigEnd(s, i, base) ==
    IF i <= Len(s) /\ (CASE base = 10 -> IsDec(s[i]) [] base = 16 -> IsHex(s[i]) [] base = 2 -> IsBin(s[i]))
    THEN DigEnd(s, i+1, base) ELSE i
RECURSIVE DigVal(_, _, _, _, _)
DigVal(s, i, j, base, acc) == IF i >= j THEN acc ELSE DigVal(s, i+1, j, base, BAdd(BMul(acc, BFromInt(base)), BFromInt(DigitVal(s[i]))))

(* A literal at position i: [ok, v, next, unspec].  unspec marks spellings   *)
(* the rules do not cover: superfluous leading zeros, upper-case hex digits  *)
(* and prefixes.                                                              *)
Literal(s, i) ==
    LET neg  == i <= Len(s) /\ s[i] = CMinus
        j    == IF neg THEN i + 1 ELSE i
        at(k) == IF k <= Len(s) THEN s[k] ELSE 0
        base == IF at(j) = CZero /\ at(j+1) = Cx THEN 16 ELSE IF at(j) = CZero /\ at(j+1) = Cb THEN 2 ELSE 10
        d    == IF base = 10 THEN j ELSE j + 2
        e    == DigEnd(s, d, base)
        m    == DigVal(s, d, e, base, BZero)
    IN [ok |-> e > d,
        v |-> IF neg THEN SNeg(SPos(m)) ELSE SPos(m),
        next |-> e,
        unspec |-> \/ base = 10 /\ e > d + 1 /\ s[d] = CZero
                   \/ base = 16 /\ IsUpHex(at(e))
                   \/ base = 10 /\ e = d + 1 /\ s[d] = CZero /\ at(e) \in {88, 66}]  \* 0X 0B

(* The whole text: operands and operators in turn, spaces anywhere between.  *)
RECURSIVE ScanFrom(_, _, _, _, _)
ScanFrom(s, i, lits, ops, unspec) ==
    LET p == SkipSp(s, i)
        l == Literal(s, p)
        q == SkipSp(s, l.next)
        u == unspec \/ l.unspec
    IN IF ~l.ok THEN [ok |-> FALSE, unspec |-> u, lits |-> <<>>, ops |-> <<>>]
       ELSE IF q > Len(s) THEN [ok |-> TRUE, unspec |-> u, lits |-> Append(lits, l.v), ops |-> ops]
       ELSE IF s[q] \notin OpCodes THEN [ok |-> FALSE, unspec |-> u, lits |-> <<>>, ops |-> <<>>]
       ELSE ScanFrom(s, q + 1, Append(lits, l.v), Append(ops, s[q]), u)
Scan(s) == ScanFrom(s, 1, <<>>, <<>>, FALSE)

(* One operation; values are [k |-> "ok", v |-> signed integer], or "div0",  *)
(* or "big" for results beyond the size this specification computes.         *)
Okv(v) == [k |-> "ok", v |-> v]
BitLimit == 40000
SmallInt(x) == BBitLen(x[2]) <= 20
ToInt(x) == IF x[2] = BZero THEN 0 ELSE (IF Len(x[2]) = 1 THEN x[2][1] ELSE x[2][1] + 32768 * x[2][2])
PowVal(x, y) ==
    IF y[1] <= 0 THEN Okv(SFromInt(1))
    ELSE IF x[1] = 0 THEN Okv(x)
    ELSE IF x[2] = BOne THEN Okv(IF x[1] > 0 \/ ~BOdd(y[2]) THEN SFromInt(1) ELSE x)
    ELSE IF ~SmallInt(y) \/ BBitLen(x[2]) * ToInt(y) > BitLimit THEN [k |-> "big"]
    ELSE Okv(SPow(x, ToInt(y)))
Apply(op, a, b) ==
    IF a.k # "ok" THEN a ELSE IF b.k # "ok" THEN b
    ELSE CASE op = CPlus -> Okv(SAdd(a.v, b.v))
           [] op = CMinus -> Okv(SSub(a.v, b.v))
           [] op = CTimes -> Okv(SMul(a.v, b.v))
           [] op = CDiv -> IF b.v[1] = 0 THEN [k |-> "div0"] ELSE Okv(SDiv(a.v, b.v))
           [] op = CPow -> PowVal(a.v, b.v)

(* The usual rules: split at the last + or -; else at the last * or /; else  *)
(* at the first ^.  ops[i] stands between lits[i] and lits[i+1].             *)
RECURSIVE LastOf(_, _, _, _)
LastOf(ops, S, lo, i) == IF i < lo THEN 0 ELSE IF ops[i] \in S THEN i ELSE LastOf(ops, S, lo, i - 1)
RECURSIVE ValueOf(_, _, _, _)
ValueOf(lits, ops, lo, hi) ==
    IF lo = hi THEN Okv(lits[lo])
    ELSE LET sum  == LastOf(ops, {CPlus, CMinus}, lo, hi - 1)
             prod == LastOf(ops, {CTimes, CDiv}, lo, hi - 1)
             i    == IF sum # 0 THEN sum ELSE IF prod # 0 THEN prod ELSE lo
         IN Apply(ops[i], ValueOf(lits, ops, lo, i), ValueOf(lits, ops, i+1, hi))
Value(lits, ops) == ValueOf(lits, ops, 1, Len(lits))

(* ---- rendering ------------------------------------------------------------ *)
RECURSIVE DecOf(_, _)
DecOf(x, acc) == IF x = BZero THEN acc ELSE DecOf(BDiv(x, BFromInt(10)), <<48 + (LET m == BMod(x, BFromInt(10)) IN IF m = BZero THEN 0 ELSE m[1])>> \o acc)
Dec(x) == IF x = BZero THEN <<48>> ELSE DecOf(x, <<>>)
HexDigitOf(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(x) == IF x = BZero THEN <<48>>
          ELSE LET n == (BBitLen(x) + 3) \div 4
               IN [i \in 1..n |-> LET k == 4 * (n - i) IN HexDigitOf(BBit(x, k) + 2*BBit(x, k+1) + 4*BBit(x, k+2) + 8*BBit(x, k+3))]
Bin(x) == IF x = BZero THEN <<48>> ELSE [i \in 1..BBitLen(x) |-> 48 + BBit(x, BBitLen(x) - i)]
SText(x, style) == (IF x[1] < 0 THEN <<CMinus>> ELSE <<>>) \o
    (CASE style = 0 -> Dec(x[2]) [] style = 1 -> <<CZero, Cx>> \o Hex(x[2]) [] style = 2 -> <<CZero, Cb>> \o Bin(x[2]))

(* ---- the shunting yard as a transition system ------------------------------- *)
(* vs: operand stack, os: operator stack.  Prec and RightAssoc are the table   *)
(* of the mechanism: ^ * / share one level.                                     *)
Prec(op) == IF op \in {CPlus, CMinus} THEN 2 ELSE 3
RightAssoc(op) == op = CPow
YPush(y, v) == [y EXCEPT !.vs = Append(@, Okv(v))]
YApply(y) == LET n == Len(y.vs) IN
    [vs |-> Append(SubSeq(y.vs, 1, n-2), Apply(y.os[Len(y.os)], y.vs[n-1], y.vs[n])), os |-> SubSeq(y.os, 1, Len(y.os)-1)]
RECURSIVE YOp(_, _)
YOp(y, op) ==
    IF y.os = <<>> THEN [y EXCEPT !.os = <<op>>]
    ELSE LET top == y.os[Len(y.os)] IN
         IF Prec(top) < Prec(op) \/ (Prec(top) = Prec(op) /\ RightAssoc(op)) THEN [y EXCEPT !.os = Append(@, op)]
         ELSE YOp(YApply(y), op)
RECURSIVE YResult(_)
YResult(y) == IF y.os = <<>> THEN y.vs[1] ELSE YResult(YApply(y))
=============================================================================
