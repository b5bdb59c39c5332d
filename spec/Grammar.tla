------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* The syntax tree the published grammar assigns to a text.  Expressions:    *)
(*   <<"op", i>>  '1' or [i]  (i a BigNat)      <<"id", name>>               *)
(*   <<"add", x, y>>   <<"dbl", x>>   <<"shl", x, s>>  (s a BigNat)          *)
(* A script is a sequence of [n |-> name, e |-> expression], the last with   *)
(* the empty name.  The parser below shares the parse of a base expression   *)
(* between the alternatives of ShiftExpr; MC_Parse compares its language     *)
(* with the literal grammar of module Peg.                                   *)
(***************************************************************************)
EXTENDS BigNat, Peg

Fail == [p |-> 0, t |-> <<>>]
Ok(p, t) == [p |-> p, t |-> t]
BadLit == <<32768>>      \* not a limb

RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, S) == IF i <= Len(s) /\ s[i] \in S THEN SkipIn(s, i+1, S) ELSE i
Ws(s, i) == SkipIn(s, i, Blanks)

DigitVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
RECURSIVE Num(_, _, _, _, _)
Num(s, i, j, base, acc) == IF i >= j THEN acc ELSE Num(s, i+1, j, base, BAdd(BMul(acc, BFromInt(base)), BFromInt(DigitVal(s[i]))))
Max64 == BSub(BPow2(64), BOne)
InRange64(x) == IF BLe(x, Max64) THEN x ELSE BadLit

UintAt(s, i) ==
    LET h == IF HasAt(s, i, <<48, 120>>) THEN SkipIn(s, i+2, HexDigits) ELSE 0
        o == IF i <= Len(s) /\ s[i] = 48 THEN SkipIn(s, i+1, OctDigits) ELSE 0
        d == SkipIn(s, i, Digits)
    IN IF h > i + 2 THEN Ok(h, InRange64(Num(s, i+2, h, 16, BZero)))
       ELSE IF o > i + 1 THEN Ok(o, InRange64(Num(s, i+1, o, 8, BZero)))
       ELSE IF d = i THEN Fail
       ELSE IF s[i] = 48 /\ d > i + 1 THEN Ok(d, BadLit)       \* 0 followed by 8 or 9
       ELSE Ok(d, InRange64(Num(s, i, d, 10, BZero)))

RECURSIVE AddAt(_, _), AddRest(_, _, _), ShiftAt(_, _), BaseAt(_, _)
BaseAt(s, i) ==
    IF i > Len(s) THEN Fail
    ELSE IF s[i] = 40 THEN
        LET e == AddAt(s, Ws(s, i+1)) IN
        IF e.p = 0 THEN Fail ELSE IF HasAt(s, e.p, <<41>>) THEN Ok(e.p + 1, e.t) ELSE Fail
    ELSE IF s[i] = 49 THEN Ok(i + 1, <<"op", BZero>>)
    ELSE IF s[i] = 91 THEN
        LET u == UintAt(s, Ws(s, i+1))
            q == IF u.p = 0 THEN 0 ELSE Ws(s, u.p)
        IN IF q # 0 /\ HasAt(s, q, <<93>>) THEN Ok(q + 1, IF u.t = BadLit THEN <<"bad">> ELSE <<"op", u.t>>) ELSE Fail
    ELSE IF s[i] \in Letters THEN LET j == SkipIn(s, i+1, Letters \cup Digits) IN Ok(j, <<"id", SubSeq(s, i, j-1)>>)
    ELSE Fail
ShiftAt(s, i) ==
    LET b == BaseAt(s, i)
        o == IF b.p = 0 THEN 0 ELSE Ws(s, b.p)
        k == IF o = 0 THEN 0 ELSE IF HasAt(s, o, <<60, 60>>) THEN o + 2 ELSE IF HasAt(s, o, TShl) THEN o + 3 ELSE 0
        u == IF k = 0 THEN Fail ELSE UintAt(s, Ws(s, k))
        w == IF i <= Len(s) /\ s[i] = 50 THEN Ws(s, i+1) ELSE 0
        m == IF w # 0 /\ HasAt(s, w, <<42>>) THEN w + 1 ELSE IF HasAt(s, i, TDbl) THEN i + 3 ELSE 0
        d == IF m = 0 THEN Fail ELSE BaseAt(s, Ws(s, m))
    IN IF u.p # 0 THEN Ok(Ws(s, u.p), <<"shl", b.t, u.t>>)
       ELSE IF d.p # 0 THEN Ok(d.p, <<"dbl", d.t>>)
       ELSE b
AddRest(s, i, x) ==
    LET j == Ws(s, i)
        k == IF HasAt(s, j, <<43>>) THEN j + 1 ELSE IF HasAt(s, j, TAdd) THEN j + 3 ELSE 0
        y == IF k = 0 THEN Fail ELSE ShiftAt(s, Ws(s, k))
    IN IF y.p = 0 THEN Ok(j, x) ELSE AddRest(s, y.p, <<"add", x, y.t>>)
AddAt(s, i) == LET x == ShiftAt(s, Ws(s, i)) IN IF x.p = 0 THEN Fail ELSE AddRest(s, x.p, x.t)

AssignAt(s, i) ==
    LET a == Ws(s, i)
        b == IF a <= Len(s) /\ s[a] \in Letters THEN SkipIn(s, a+1, Letters \cup Digits) ELSE 0
        c == IF b = 0 THEN 0 ELSE Ws(s, b)
        e == IF c # 0 /\ HasAt(s, c, <<61>>) THEN AddAt(s, Ws(s, c+1)) ELSE Fail
    IN IF e.p # 0 /\ HasAt(s, e.p, <<10>>) THEN Ok(e.p + 1, [n |-> SubSeq(s, a, b-1), e |-> e.t]) ELSE Fail
ReturnAt(s, i) ==
    LET a == Ws(s, i)
        r == IF HasAt(s, a, TReturn) THEN Ws(s, a + 6) ELSE 0
        e == AddAt(s, IF r > a + 6 THEN r ELSE a)
    IN IF e.p = 0 THEN Fail
       ELSE Ok(IF HasAt(s, e.p, <<10>>) THEN e.p + 1 ELSE e.p, [n |-> <<>>, e |-> e.t])
RECURSIVE StmtsAt(_, _, _)
StmtsAt(s, i, acc) ==
    LET a == AssignAt(s, i) IN
    IF a.p # 0 THEN StmtsAt(s, a.p, Append(acc, a.t))
    ELSE LET r == ReturnAt(s, i) IN
         IF r.p # 0 /\ Ws(s, r.p) > Len(s) THEN [ok |-> TRUE, ss |-> Append(acc, r.t)] ELSE [ok |-> FALSE, ss |-> <<>>]

RECURSIVE GoodLits(_)
GoodLits(t) ==
    CASE t[1] = "bad" -> FALSE
      [] t[1] = "op" -> TRUE
      [] t[1] = "id" -> TRUE
      [] t[1] = "add" -> GoodLits(t[2]) /\ GoodLits(t[3])
      [] t[1] = "dbl" -> GoodLits(t[2])
      [] t[1] = "shl" -> t[3] # BadLit /\ GoodLits(t[2])

NoParse == [ok |-> FALSE, ss |-> <<>>]
ParseScript(s) ==
    LET r == StmtsAt(s, 1, <<>>) IN
    IF r.ok /\ \A k \in 1..Len(r.ss) : GoodLits(r.ss[k].e) THEN r ELSE NoParse

(* ---------- a canonical printing of trees ---------- *)
RECURSIVE DecDigits(_)
DecDigits(x) == IF x = BZero THEN <<>> ELSE DecDigits(BDiv(x, BFromInt(10))) \o <<48 + (LET d == BMod(x, BFromInt(10)) IN IF d = BZero THEN 0 ELSE d[1])>>
DecText(x) == IF x = BZero THEN <<48>> ELSE DecDigits(x)

IsAtom(t) == t[1] \in {"op", "id"}
RECURSIVE Canon(_)
Paren(t) == <<40>> \o Canon(t) \o <<41>>
AtomOrParen(t) == IF IsAtom(t) THEN Canon(t) ELSE Paren(t)
Canon(t) ==
    CASE t[1] = "op" -> IF t[2] = BZero THEN <<49>> ELSE <<91>> \o DecText(t[2]) \o <<93>>
      [] t[1] = "id" -> t[2]
      [] t[1] = "add" -> Canon(t[2]) \o <<32, 43, 32>> \o (IF t[3][1] = "add" THEN Paren(t[3]) ELSE Canon(t[3]))
      [] t[1] = "dbl" -> <<50, 42>> \o AtomOrParen(t[2])
      [] t[1] = "shl" -> AtomOrParen(t[2]) \o <<32, 60, 60, 32>> \o DecText(t[3])
CanonStmt(st) == IF st.n = <<>> THEN TReturn \o <<32>> \o Canon(st.e) \o <<10>> ELSE st.n \o <<32, 61, 32>> \o Canon(st.e) \o <<10>>
RECURSIVE CanonScript(_, _)
CanonScript(ss, k) == IF k > Len(ss) THEN <<>> ELSE CanonStmt(ss[k]) \o CanonScript(ss, k+1)

(* The grammar has no way to write an identifier that begins with "dbl" and   *)
(* goes on, except as the operand of a shift.                                  *)
DblName(n) == Len(n) > 3 /\ SubSeq(n, 1, 3) = TDbl
RECURSIVE Writable(_)
Writable(t) ==
    CASE t[1] = "op" -> TRUE
      [] t[1] = "id" -> ~DblName(t[2])
      [] t[1] = "add" -> Writable(t[2]) /\ Writable(t[3])
      [] t[1] = "dbl" -> t[2][1] = "id" \/ Writable(t[2])
      [] t[1] = "shl" -> t[2][1] = "id" \/ Writable(t[2])
WritableScript(ss) == \A k \in 1..Len(ss) : Writable(ss[k].e)
=============================================================================
