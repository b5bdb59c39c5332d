------------------------------ MODULE MC_Print ------------------------------
(***************************************************************************)
(* C07.  States: expression trees grown to a bound on operators over two     *)
(* leaf sets, random scripts with arbitrary identifiers, long chains of one   *)
(* operator shape, and texts.  Printing must give a text to which the         *)
(* grammar and the real parser both assign the original tree.                  *)
(***************************************************************************)
EXTENDS ScriptGen, TLC

CONSTANTS Seed, OpsWide, OpsDeep, Rounds, PerRound, Deep, CliRuns, LongRuns

VARIABLE st
vars == st

PrintOk(ss, v) ==
    LET g == ParseScript(v.text) IN
    IF WritableScript(ss)
    THEN v.ok /\ v.back /\ v.tree = ss /\ v.again /\ g.ok /\ g.ss = ss
    ELSE (* known finding: such identifiers have no spelling; nothing else may go wrong *)
         v.ok /\ v.back = g.ok /\ (g.ok => v.tree = g.ss)
JudgePrint(ss, r) == r.st = "ok" /\ PrintOk(ss, r.v)
JudgeExpr(e, r) ==
    r.st = "ok" /\ r.v.ok /\
    (Writable(e) => r.v.back /\ r.v.tree = <<[n |-> <<>>, e |-> e]>> /\ ParseScript(r.v.text).ss = <<[n |-> <<>>, e |-> e]>>)
JudgeFmt(s, r) ==
    r.st = "ok" /\
    LET g == ParseScript(s) IN
    r.v.pok = g.ok /\ (g.ok => r.v.tree = g.ss /\ PrintOk(g.ss, r.v.p))
TFmt == <<102, 109, 116>>
JudgeCli(s, r) ==
    r.st = "ok" /\
    LET g == ParseScript(s) IN
    IF ~g.ok THEN r.v.status = 1 /\ r.v.out = <<>>
    ELSE /\ r.v.status = 0 /\ ParseScript(r.v.out) = g
         /\ LET q == Call("cli", [args |-> <<TFmt>>, in |-> r.v.out]) IN q.st = "ok" /\ q.v.status = 0 /\ q.v.out = r.v.out

Check(tag, a) ==
    CASE tag = "print" -> LET r == Call(tag, a) IN
            Report(tag, a, JudgePrint(a, r)) /\ Tally("known:dbl-identifier", ~WritableScript(a) /\ (~r.v.back \/ r.v.tree # a))
      [] tag = "printexpr" -> LET r == Call(tag, a) IN Report(tag, a, JudgeExpr(a, r))
      [] tag = "fmt" -> LET r == Call(tag, a) IN Report(tag, a, JudgeFmt(a, r)) /\ Tally("cov:parsed", r.v.pok)
      [] tag = "fmtcli" -> LET r == Call("cli", [args |-> <<TFmt>>, in |-> a]) IN Report(tag, a, JudgeCli(a, r))

(* ---------- behaviours ---------- *)
One == <<"op", BZero>>
Wide == {One, <<"op", BTwo>>, <<"id", NX>>, <<"id", TDbl>>, <<"id", TReturn>>}
Narrow == {One, <<"id", NX>>}
RECURSIVE TreesOf(_, _)
TreesOf(n, L) == IF n = 0 THEN L
    ELSE LET T == TreesOf(n-1, L) IN {<<"dbl", x>> : x \in T} \cup {<<"shl", x, BTwo>> : x \in T}
         \cup UNION {{<<"add", x, y>> : x \in TreesOf(i, L), y \in TreesOf(n-1-i, L)} : i \in 0..(n-1)}
(* trees by root: the two children come from smaller sets, so large sets are never built *)
Root == st.t = "root" /\
    \/ \E n \in 0..OpsWide : \E i \in 0..n : st' = [t |-> "trees", n |-> n, i |-> i, L |-> Wide]
    \/ \E n \in 0..OpsDeep : \E i \in 0..n : st' = [t |-> "trees", n |-> n, i |-> i, L |-> Narrow]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..LongRuns : st' = [t |-> "long", b |-> b]
    \/ \E b \in 1..CliRuns : st' = [t |-> "cli", b |-> b]
TreeStep == st.t = "trees" /\
    IF st.n = 0 THEN \E x \in st.L : st' = [t |-> "tree", e |-> x]
    ELSE IF st.i = st.n THEN \E x \in TreesOf(st.n - 1, st.L) : \E u \in {1, 2} :
            st' = [t |-> "tree", e |-> IF u = 1 THEN <<"dbl", x>> ELSE <<"shl", x, BTwo>>]
    ELSE \E x \in TreesOf(st.i, st.L) : \E y \in TreesOf(st.n - 1 - st.i, st.L) : st' = [t |-> "tree", e |-> <<"add", x, y>>]

IdChars == [i \in 1..26 |-> 96 + i] \o [i \in 1..26 |-> 64 + i] \o <<95, 95, 95>> \o [i \in 1..10 |-> 47 + i]
RandName(key) ==
    IF GR(key, "look", 3) = 0 THEN Pick(key, "l", Names)
    ELSE [i \in 1..(1 + GR(key, "len", 9)) |-> IF i = 1 THEN IdChars[1 + GR(key, i, 55)] ELSE Pick(<<key, i>>, "c", IdChars)]
RECURSIVE Rename(_, _)
Rename(t, key) ==
    CASE t[1] = "op" -> IF GR(key, "huge", 12) = 0 THEN <<"op", Pick(key, "h", <<BPow2(63), Max64, BPow2(32), BSub(BPow2(63), BOne), BFromInt(10)>>)>> ELSE t
      [] t[1] = "id" -> <<"id", RandName(key)>>
      [] t[1] = "add" -> <<"add", Rename(t[2], <<key, 1>>), Rename(t[3], <<key, 2>>)>>
      [] t[1] = "dbl" -> <<"dbl", Rename(t[2], <<key, 1>>)>>
      [] t[1] = "shl" -> <<"shl", Rename(t[2], <<key, 1>>), IF GR(key, "hs", 12) = 0 THEN Pick(key, "h", <<BPow2(63), Max64, BPow2(32), BOne, BZero>>) ELSE t[3]>>
RandTree(key) == Rename(RandExpr(key, 3 + GR(key, "d", 5), <<NX, NY>>, 8), key)
RandNamed(key, n) == [k \in 1..n |-> [n |-> IF k = n THEN <<>> ELSE RandName(<<key, "n", k>>), e |-> RandTree(<<key, k>>)]]

(* long chains of one repeated shape *)
DeepTree(key, n) ==
    FoldLeft(LAMBDA t, k :
        LET u == GR(<<key, k \div 7>>, "u", 7) IN
        IF u = 0 THEN <<"dbl", t>> ELSE IF u = 1 THEN <<"shl", t, BFromInt(1 + (k % 3))>>
        ELSE IF u = 2 THEN <<"add", t, One>> ELSE IF u = 3 THEN <<"add", One, t>>
        ELSE IF u = 4 THEN <<"add", <<"id", NX>>, <<"dbl", t>>>> ELSE IF u = 5 THEN <<"add", <<"shl", t, BOne>>, <<"add", One, One>>>>
        ELSE <<"dbl", <<"add", t, <<"op", BFromInt(k)>>>>>>,
      One, [k \in 1..n |-> k])

PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        k == GR(key, "kind", 8)
    IN st' = IF k < 3 THEN [t |-> "script", ss |-> RandNamed(key, 1 + GR(key, "ns", 5))]
             ELSE IF k = 3 THEN [t |-> "script", ss |-> <<[n |-> NX, e |-> DeepTree(key, 1 + GR(key, "dn", Deep))], [n |-> <<>>, e |-> <<"id", NX>>]>>]
             ELSE IF k = 4 THEN [t |-> "expr", e |-> RandTree(key)]
             ELSE [t |-> "text", s |-> LET s == SpellScript(RandScript(key, 1 + GR(key, "n", 6), 1 + GR(key, "d", 5)), key)
                                       IN IF k = 7 THEN Edit(s, key) ELSE s]
(* long names, many statements, wide sums, deep nesting, huge numbers *)
LongName(key, n) == [i \in 1..n |-> IF i = 1 THEN IdChars[1 + GR(key, 1, 55)] ELSE IdChars[1 + ((GR(key, 2, 60) + i * (1 + GR(key, 3, 5))) % Len(IdChars))]]
LongScript(b) ==
    LET key == <<Seed, "long", b>>
        sz == <<31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300>>[1 + GR(key, "sz", 15)]
        nm(i) == LongName(<<key, i>>, sz)
        k == b % 4
    IN CASE k = 0 -> <<[n |-> nm(1), e |-> <<"shl", One, BFromInt(sz)>>], [n |-> nm(2), e |-> <<"add", <<"id", nm(1)>>, <<"id", nm(1)>>>>],
                       [n |-> <<>>, e |-> <<"dbl", <<"add", <<"id", nm(2)>>, <<"shl", <<"id", nm(1)>>, BFromInt(1)>>>>>>]>>
         [] k = 1 -> [i \in 1..sz |-> [n |-> IF i = sz THEN <<>> ELSE LongName(<<key, i>>, 1 + GR(<<key, i>>, "l", 20)), e |-> RandExpr(<<key, i>>, 2, <<NX, NY>>, 8)]]
         [] k = 2 -> LET t == FoldLeft(LAMBDA acc, i : IF GR(<<key, i>>, "s", 5) = 0 THEN <<"add", acc, <<"shl", One, BFromInt(i)>>>> ELSE IF GR(<<key, i>>, "s", 5) = 1 THEN <<"add", acc, <<"dbl", One>>>> ELSE <<"add", acc, <<"op", BFromInt(i)>>>>,
                                       One, [i \in 1..sz |-> i])
                     IN <<[n |-> NX, e |-> t], [n |-> <<>>, e |-> <<"dbl", t>>]>>
         [] k = 3 -> LET t == FoldLeft(LAMBDA acc, i : IF GR(<<key, i>>, "s", 3) = 0 THEN <<"shl", <<"add", acc, One>>, BFromInt(i)>> ELSE <<"add", One, <<"add", acc, One>>>>, One, [i \in 1..(IF sz > 64 THEN 60 ELSE sz) |-> i])
                     IN <<[n |-> <<>>, e |-> t]>>
PickLong == st.t = "long" /\ st' = [t |-> "script", ss |-> LongScript(st.b)]
Init == st = [t |-> "root"]
Next == PickLong \/ Root \/ TreeStep \/ PickRnd
Spec == Init /\ [][Next]_vars

Both(e) == <<[n |-> NX, e |-> e], [n |-> <<>>, e |-> e]>>
ImplInv ==
    CASE st.t = "tree" -> Check("print", Both(st.e))
      [] st.t = "script" -> Check("print", st.ss)
      [] st.t = "expr" -> Check("printexpr", st.e)
      [] st.t = "text" -> Check("fmt", st.s)
      [] st.t = "cli" -> LET key == <<Seed, "cli", st.b>> IN Check("fmtcli", SpellScript(RandScript(key, 1 + GR(key, "n", 6), 4), key))
      [] OTHER -> TRUE

(* the design: canonical printing inverts parsing on writable trees, and only  *)
(* on those                                                                     *)
ModelInv ==
    /\ st.t = "tree" => ParseScript(CanonScript(Both(st.e), 1)).ss = Both(st.e)
    /\ st.t = "script" => (ParseScript(CanonScript(st.ss, 1)).ss = st.ss <=> WritableScript(st.ss))
=============================================================================
