------------------------------ MODULE MC_Calc ------------------------------
(***************************************************************************)
(* C13.  States: prefixes of operand/operator sequences together with the    *)
(* state of the shunting yard after them (exhaustive for the literal sets),  *)
(* character sequences over the alphabet of expressions (exhaustive up to a  *)
(* length), mutated expressions, random large expressions.                    *)
(***************************************************************************)
EXTENDS CalcDef, Impl, SequencesExt, TLC

CONSTANTS Seed, LitsA, OpsA, LitsB, OpsB, TextLen, Rounds, PerRound, CliRuns, EdgeTriples, LongRuns
LitsABase == {SFromInt(i - 3) : i \in LitsA}     \* cfg files have no negative numbers
LitsBBase == {SFromInt(i - 3) : i \in LitsB}

VARIABLE st
vars == st

R(key, name, m) == Rand(<<key, name>>, m)
Alphabet == {32, 45, 43, 94, 47, 48, 49, 50, 120, 98, 97, 42}

YOk(v) == v.k = "ok"
Expect(s) == LET sc == Scan(s) IN IF sc.unspec THEN [k |-> "unspec"] ELSE IF ~sc.ok THEN [k |-> "err"] ELSE Value(sc.lits, sc.ops)

JudgeEval(s, r) ==
    LET e == Expect(s) IN
    CASE e.k = "ok" -> r.st = "ok" /\ r.v.ok /\ r.v.x = e.v
      [] e.k = "err" -> r.st = "ok" /\ ~r.v.ok
      [] OTHER -> TRUE

HasSub(t, u) == \E i \in 0..(Len(t) - Len(u)) : SubSeq(t, i+1, i + Len(u)) = u
JudgeSearch(s, r) ==
    LET e == Expect(s) IN
    r.st = "ok" /\
    CASE e.k = "ok" -> /\ HasSub(r.v.err, <<104, 101, 120, 58, 32>> \o ((IF e.v[1] < 0 THEN <<CMinus>> ELSE <<>>) \o Hex(e.v[2])) \o <<10>>)
                       /\ HasSub(r.v.err, <<100, 101, 99, 58, 32>> \o SText(e.v, 0) \o <<10>>)
      [] e.k = "err" -> r.v.status # 0 /\ r.v.out = <<>>
      [] OTHER -> TRUE

Check(tag, a) ==
    CASE tag = "calc" -> LET r == Call(tag, a) IN Report(tag, a, JudgeEval(a, r))
      [] tag = "search" -> LET r == Call("cli", [args |-> <<<<115, 101, 97, 114, 99, 104>>, a>>, in |-> <<>>]) IN Report(tag, a, JudgeSearch(a, r))

(* literals around the limits of machine integers, under every operator      *)
Edges == LET P(k) == SPos(BPow2(k)) IN
    <<SFromInt(0), SFromInt(1), SFromInt(-1), SFromInt(2), SFromInt(-2), SFromInt(3), SFromInt(-3), SFromInt(10)>> \o
    FlattenSeq([i \in 1..6 |-> LET k == <<16, 31, 32, 53, 63, 64>>[i] IN
        <<P(k), SSub(P(k), SFromInt(1)), SAdd(P(k), SFromInt(1)), SNeg(P(k)), SNeg(SSub(P(k), SFromInt(1))), SNeg(SAdd(P(k), SFromInt(1)))>>]) \o
    <<P(62), SSub(P(62), SFromInt(1)), SSub(P(63), SFromInt(2)), P(127), SSub(P(128), SFromInt(1)), SPos(BPow(BFromInt(10), 19)), SPos(BPow(BFromInt(10), 18)),
      SPos(<<20504, 7446, 2>>), SNeg(SPos(<<24053, 22207, 2>>))>>
SmallExp(x) == SCmp(x, SFromInt(70)) < 0
Yard0 == [vs |-> <<>>, os |-> <<>>]
Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ \E v \in LitsABase : st' = [t |-> "seq", set |-> 1, n |-> OpsA, lits |-> <<v>>, ops |-> <<>>, yard |-> YPush(Yard0, v)]
    \/ \E v \in LitsBBase : st' = [t |-> "seq", set |-> 2, n |-> OpsB, lits |-> <<v>>, ops |-> <<>>, yard |-> YPush(Yard0, v)]
    \/ st' = [t |-> "text", s |-> <<>>]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E i \in 1..Len(Edges) : st' = [t |-> "edge", i |-> i]
    \/ \E b \in 1..LongRuns : st' = [t |-> "long", b |-> b]
    \/ \E b \in 1..CliRuns : st' = [t |-> "cli", b |-> b]
SeqStep == st.t = "seq" /\ Len(st.ops) < st.n /\ \E op \in OpCodes : \E v \in (IF st.set = 1 THEN LitsABase ELSE LitsBBase) :
    st' = [st EXCEPT !.lits = Append(@, v), !.ops = Append(@, op), !.yard = YPush(YOp(@, op), v)]
TextStep == st.t = "text" /\ Len(st.s) < TextLen /\ \E c \in Alphabet : st' = [st EXCEPT !.s = Append(@, c)]

TextOf(lits, ops, style(_), pad(_)) ==
    FoldLeft(LAMBDA acc, i : acc \o pad(2*i) \o SText(lits[i], style(i)) \o pad(2*i+1) \o (IF i <= Len(ops) THEN <<ops[i]>> ELSE <<>>),
             <<>>, [i \in 1..Len(lits) |-> i])
Spaces(n) == [i \in 1..n |-> CSpace]
Plain(lits, ops) == TextOf(lits, ops, LAMBDA i : 0, LAMBDA i : <<>>)

(* Random expressions; the exponent of each ^ is mostly small. *)
RndExpr(key) ==
    LET n == R(key, "n", 13)
        opl == <<CPlus, CMinus, CTimes, CDiv, CPow, CPlus, CMinus, CTimes, CDiv, CPow, CPow>>
        ops == [i \in 1..n |-> opl[1 + R(key, <<"o", i>>, 11)]]
        big == R(key, "big", 3)
        lit(i) == LET m == IF i > 1 /\ ops[i-1] = CPow THEN BFromInt(R(key, <<"e", i>>, 5))
                           ELSE IF big = 0 THEN BFromInt(R(key, <<"s", i>>, 12))
                           ELSE RandBits(<<key, "v", i>>, 1 + R(key, <<"w", i>>, IF big = 1 THEN 40 ELSE 300))
                  IN IF R(key, <<"g", i>>, 4) = 0 THEN SNeg(SPos(m)) ELSE SPos(m)
        spaced == R(key, "sp", 3)
    IN TextOf([i \in 1..(n+1) |-> lit(i)], ops, LAMBDA i : LET c == R(key, <<"y", i>>, 6) IN IF c > 2 THEN 0 ELSE c,
              LAMBDA i : IF spaced = 0 THEN <<>> ELSE Spaces(R(key, <<"p", i>>, spaced + 1)))
(* Damage: insert, delete, replace or double a character. *)
Mutate(key, s) ==
    LET i == R(key, "mi", Len(s) + 1)
        c == R(key, "mc", 256)
        d == <<32, 45, 43, 42, 47, 94, 48, 120, 98, 40, 41, 46, 95, 9, 10, 101>>[1 + R(key, "md", 16)]
        ch == IF R(key, "me", 2) = 0 THEN c ELSE d
        k == R(key, "mk", 4)
    IN CASE k = 0 -> SubSeq(s, 1, i) \o <<ch>> \o SubSeq(s, i+1, Len(s))
         [] k = 1 -> SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
         [] k = 2 -> IF i = 0 THEN s ELSE SubSeq(s, 1, i-1) \o <<ch>> \o SubSeq(s, i+1, Len(s))
         [] k = 3 -> SubSeq(s, 1, i)
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        s == RndExpr(key)
    IN st' = [t |-> "expr", s |-> IF i % 3 = 0 THEN Mutate(key, s) ELSE IF i % 30 = 1 THEN Mutate(<<key, 2>>, Mutate(key, s)) ELSE s]
(* Expressions with moderate positive value for the search command. *)
PickCli == st.t = "cli" /\ 
    LET key == <<Seed, "cli", st.b>>
        ops == [i \in 1..R(key, "n", 5) |-> <<CPlus, CMinus, CTimes, CDiv, CPow>>[1 + R(key, <<"o", i>>, 5)]]
        s == Plain([i \in 1..(Len(ops)+1) |-> SFromInt(R(key, <<"l", i>>, 5))], ops)
    IN st' = [t |-> "search", s |-> IF R(key, "neg", 5) = 0 THEN Mutate(key, s) ELSE s]
EdgeStep == st.t = "edge" /\ \E op \in OpCodes : \E j \in 1..Len(Edges) :
    /\ (op = CPow => SmallExp(Edges[j]))
    /\ st' = [t |-> "edge2", s |-> TextOf(<<Edges[st.i], Edges[j]>>, <<op>>, LAMBDA i : (st.i + i * j) % 3, LAMBDA i : <<>>)]
EdgeTriple == st.t = "edge" /\ \E i \in 1..EdgeTriples :
    LET key == <<Seed, "edge", st.i, i>>
        opl == <<CPlus, CMinus, CTimes, CTimes, CDiv, CPow>>
        ops == [x \in 1..(2 + R(key, "n", 3)) |-> opl[1 + R(key, <<"o", x>>, 6)]]
        lit(x) == IF x > 1 /\ ops[x-1] = CPow THEN SFromInt(R(key, <<"e", x>>, 4)) ELSE IF x = 1 THEN Edges[st.i] ELSE Edges[1 + R(key, <<"l", x>>, Len(Edges))]
    IN st' = [t |-> "edge2", s |-> TextOf([x \in 1..(Len(ops)+1) |-> lit(x)], ops, LAMBDA x : R(key, <<"y", x>>, 3), LAMBDA x : <<>>)]
(* expressions of hundreds of operands, literals and gaps of hundreds of        *)
(* characters, large powers                                                      *)
LongExpr(b) ==
    LET key == <<Seed, "long", b>>
        k == b % 5
        n == <<20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257>>[1 + R(key, "n", 16)]
        opl == <<<<CPlus, CMinus>>, <<CTimes, CDiv>>, <<CPlus, CMinus, CTimes, CDiv>>, <<CPlus, CTimes, CPow>>>>[1 + R(key, "opl", 4)]
        ops == TLCEval([i \in 1..n |-> opl[1 + R(key, <<"o", i>>, Len(opl))]])
        lit(i) == LET m == IF i > 1 /\ ops[i-1] = CPow THEN R(key, <<"e", i>>, 3) ELSE IF i > 1 /\ ops[i-1] = CDiv THEN 1 + R(key, <<"d", i>>, 3) ELSE R(key, <<"s", i>>, 300)
                  IN SFromInt(IF R(key, <<"g", i>>, 4) = 0 THEN 0 - m ELSE m)
        wide == <<300, 511, 512, 513, 800, 1000, 1023, 1024, 1025>>[1 + R(key, "wd", 9)]
        x == SPos(BAdd(BPow2(wide - 1), RandBits(<<key, "x">>, wide - 1)))
        gap == <<10, 63, 64, 65, 100, 255, 256, 257, 300>>[1 + R(key, "gap", 9)]
        tower == [i \in 1..(n+1) |-> SFromInt(<<0, 1, 1, 1, 2>>[1 + R(key, <<"t", i>>, 5)])]
        e == <<63, 64, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 2000>>[1 + R(key, "ex", 11)]
    IN CASE k = 0 -> Plain([i \in 1..(n+1) |-> lit(i)], ops)
         [] k = 1 -> TextOf(<<x, SFromInt(R(key, "a", 9) - 4)>>, <<<<CPlus, CMinus, CTimes, CDiv>>[1 + R(key, "xo", 4)]>>, LAMBDA i : R(key, "y", 3), LAMBDA i : <<>>)
         [] k = 2 -> TextOf(<<SFromInt(7), SFromInt(R(key, "a", 9) + 1), SFromInt(3)>>, <<ops[1], ops[2]>>, LAMBDA i : 0, LAMBDA i : IF R(key, <<"gp", i>>, 3) = 0 THEN Spaces(gap) ELSE <<>>)
         [] k = 3 -> Plain(tower, [i \in 1..n |-> CPow])
         [] k = 4 -> Plain(<<SFromInt(<<2, -2, 3, -1, 0, 10>>[1 + R(key, "b", 6)]), SFromInt(e), SFromInt(R(key, "c", 100))>>, <<CPow, <<CPlus, CMinus, CDiv>>[1 + R(key, "co", 3)]>>)
PickLong == st.t = "long" /\ \E b \in {st.b} : st' = [t |-> "expr", s |-> IF b % 11 = 0 THEN Mutate(<<Seed, "lm", b>>, LongExpr(b)) ELSE LongExpr(b)]
Next == PickLong \/ EdgeStep \/ EdgeTriple \/ Root \/ SeqStep \/ TextStep \/ PickRnd \/ PickCli
Spec == Init /\ [][Next]_vars

Searchable(s) == LET e == Expect(s) IN (e.k = "err" /\ (s = <<>> \/ s[1] # CMinus)) \/ (e.k = "ok" /\ e.v[1] > 0 /\ BBitLen(e.v[2]) <= 40)
CallEval(s) == LET e == Expect(s) IN
    /\ Tally("cov:" \o e.k, TRUE)
    /\ e.k \in {"ok", "err"} => Check("calc", s)
ImplInv ==
    CASE st.t = "seq" -> CallEval(Plain(st.lits, st.ops))
      [] st.t \in {"text", "expr", "edge2"} -> CallEval(st.s)
      [] st.t = "search" -> Searchable(st.s) => Check("search", st.s)
      [] OTHER -> TRUE
(* The mechanism computes what the usual rules say, in every reachable state. *)
YardInv == st.t = "seq" =>
    LET y == YResult(st.yard)  v == Value(st.lits, st.ops) IN
    /\ YOk(y) = YOk(v) /\ (YOk(v) => y = v)
    /\ Len(st.yard.vs) = Len(st.yard.os) + 1
    \* below a ^ on the stack only operators of lower level or further ^ (never a pending * or / under + or -)
    /\ \A i \in 1..(Len(st.yard.os)-1) : Prec(st.yard.os[i]) < Prec(st.yard.os[i+1]) \/ st.yard.os[i+1] = CPow
(* Rendering and scanning are inverse. *)
TextInv == (st.t = "seq" /\ Len(st.ops) <= 3) =>
    LET s == Scan(Plain(st.lits, st.ops)) IN s.ok /\ ~s.unspec /\ s.lits = st.lits /\ s.ops = st.ops
=============================================================================
