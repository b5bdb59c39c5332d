----------------------------- MODULE MC_Builder -----------------------------
(***************************************************************************)
(* C18.  The program builder as a state machine: the state is the list of   *)
(* operations; Add(i,j), Double(i) and Shift(i,s) are accepted exactly when  *)
(* their operands exist, append, and return the index of the new element;    *)
(* otherwise they change nothing.  `hist` states are complete call histories *)
(* (accepted and refused calls), `prog` states are programs, `pair` states   *)
(* pairs of ascending chains for the product and plus operators.             *)
(***************************************************************************)
EXTENDS ChainGen, TLC

CONSTANTS Seed, HistLen, ProgLen, PairLen, Rounds, PerRound, LongRuns

VARIABLE st
vars == st

(* ---------- builder ---------- *)
InRange(p, i) == i \in 0..Len(p)
RECURSIVE Doublings(_, _, _)
Doublings(p, i, s) == IF s = 0 THEN p ELSE Doublings(Append(p, <<i, i>>), Len(p) + 1, s - 1)

Accepts(p, call) == CASE call[1] = "add" -> InRange(p, call[2]) /\ InRange(p, call[3])
                      [] OTHER -> InRange(p, call[2])
Apply(p, call) ==
    IF call[1] = "query" \/ ~Accepts(p, call) THEN p
    ELSE CASE call[1] = "add" -> Append(p, <<call[2], call[3]>>)
           [] call[1] = "double" -> Append(p, <<call[2], call[2]>>)
           [] call[1] = "shift" -> Doublings(p, call[2], call[3])
After(calls) == FoldLeft(LAMBDA p, c : Apply(p, c), <<>>, calls)

(* an operation is an unordered pair; the order the code stores is free *)
SameOps(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) :
                    p[k] = q[k] \/ p[k] = <<q[k][2], q[k][1]>>

JudgeBuilder(calls, r) ==
    r.st = "ok" /\ Len(r.v) = Len(calls) /\
    \A k \in 1..Len(calls) :
       LET before == After(SubSeq(calls, 1, k-1))
           after  == Apply(before, calls[k])
           o == r.v[k]
       IN /\ o.ok = Accepts(before, calls[k])
          /\ (o.ok => o.idx = Len(after))
          /\ SameOps(o.prog, after)

(* ---------- analyses ---------- *)
Doubles(p) == Cardinality({k \in 1..Len(p) : p[k][1] = p[k][2]})
Reads(p, i) == Cardinality({k \in 1..Len(p) : i \in {p[k][1], p[k][2]}})
RECURSIVE Deps(_, _)
Deps(p, i) == IF i = 0 THEN {0} ELSE {i} \cup Deps(p, p[i][1]) \cup Deps(p, p[i][2])
(* the same, forwards, for long programs *)
AllDeps(p) == FoldLeft(LAMBDA ds, o : Append(ds, {Len(ds)} \cup ds[o[1]+1] \cup ds[o[2]+1]), << {0} >>, p)

JudgeAnalyse(p, r) ==
    r.st = "ok" /\
    LET v == r.v  n == Len(p) IN
    /\ v.chain = EvalProg(p)
    /\ Len(v.chain) = n + 1
    /\ v.doubles = Doubles(p) /\ v.doubles1 = Doubles(p)
    /\ v.adds = n - Doubles(p) /\ v.adds1 = n - Doubles(p)
    /\ Len(v.reads) = n + 1 /\ \A i \in 0..n : v.reads[i+1] = Reads(p, i)
    /\ Len(v.deps) = n + 1
    /\ LET ds == AllDeps(p) IN \A i \in 1..(n+1) : Range(v.deps[i]) = ds[i] /\ Len(v.deps[i]) = Cardinality(ds[i])
    /\ v.prog = p

(* ---------- long histories: calls with queries of the analyses in between ---------- *)
(* A query records the counts of the program as it is at that moment.        *)
JudgeLong(calls, r) ==
    r.st = "ok" /\ Len(r.v.steps) = Len(calls) /\
    LET end == FoldLeft(LAMBDA h, k :
            LET c == calls[k]  o == r.v.steps[k] IN
            IF c[1] = "query"
            THEN [h EXCEPT !.ok = @ /\ o.n = Len(h.p) /\ o.doubles = Doubles(h.p) /\ o.adds = Len(h.p) - Doubles(h.p)
                                    /\ Len(o.reads) = Len(h.p) + 1 /\ (\A i \in 0..Len(h.p) : o.reads[i+1] = Reads(h.p, i))
                                    /\ Len(o.deps) = Len(h.p) + 1 /\ (LET ds == AllDeps(h.p) IN \A i \in 0..Len(h.p) : o.deps[i+1] = Cardinality(ds[i+1]))
                                    /\ o.end = EvalProg(h.p)[Len(h.p)+1]]
            ELSE LET q == Apply(h.p, c) IN
                 [p |-> q, ok |-> h.ok /\ o.ok = Accepts(h.p, c) /\ (o.ok => o.idx = Len(q)) /\ o.n = Len(q)],
          [p |-> <<>>, ok |-> TRUE], [k \in 1..Len(calls) |-> k])
    IN end.ok /\ SameOps(r.v.prog, end.p)

(* ---------- product and plus ---------- *)
JudgeProduct(a, b, r) ==
    r.st = "ok" /\
    LET c == r.v.c IN
    /\ IsAddChain(c)
    /\ c[Len(c)] = BMul(a[Len(a)], b[Len(b)])
    /\ r.v.a = a /\ r.v.b = b
JudgePlus(a, x, r) ==
    r.st = "ok" /\
    LET c == r.v.c IN
    /\ IsAddChain(c)
    /\ c[Len(c)] = BAdd(a[Len(a)], x)
    /\ r.v.a = a /\ r.v.x = x

Judge(tag, a, r) ==
    CASE tag = "builder" -> JudgeBuilder(a, r)
      [] tag = "builderlong" -> JudgeLong(a, r)
      [] tag = "analyse" -> JudgeAnalyse(a, r)
      [] tag = "product" -> JudgeProduct(a[1], a[2], r)
      [] tag = "plus" -> JudgePlus(a[1], a[2], r)
Check(tag, a) == LET r == Call(tag, a) IN Report(tag, a, Judge(tag, a, r))

(* ---------- behaviours ---------- *)
CallsAt(p) == LET I == -1..(Len(p) + 1) IN
    {<<"add", i, j>> : i, j \in I} \cup {<<"double", i, 0>> : i \in I} \cup {<<"shift", i, s>> : i \in I, s \in 1..3}

AscSums(c) == {v \in NextVals(c) : BLt(c[Len(c)], v)}

Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ st' = [t |-> "hist", calls |-> <<>>, p |-> <<>>]
    \/ st' = [t |-> "prog", p |-> <<>>]
    \/ st' = [t |-> "asc", c |-> <<BOne>>]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..LongRuns : st' = [t |-> "longrnd", b |-> b]
CallStep == st.t = "hist" /\ Len(st.calls) < HistLen /\
    \E c \in CallsAt(st.p) : st' = [t |-> "hist", calls |-> Append(st.calls, c), p |-> Apply(st.p, c)]
(* from every program: every call, in and out of range (also far out)        *)
ProgStep == st.t = "prog" /\ Len(st.p) < ProgLen /\ \E i, j \in 0..Len(st.p) : st' = [t |-> "prog", p |-> Append(st.p, <<i, j>>)]
AscStep == st.t = "asc" /\ Len(st.c) < PairLen /\ \E v \in AscSums(st.c) : st' = [t |-> "asc", c |-> Append(st.c, v)]
PairStart == st.t = "asc" /\ st' = [t |-> "pair", a |-> st.c, b |-> <<BOne>>]
PairStep == st.t = "pair" /\ Len(st.b) < PairLen /\ \E v \in AscSums(st.b) : st' = [t |-> "pair", a |-> st.a, b |-> Append(st.b, v)]
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        kind == Rand(<<key, "kind">>, 4)
        n == 4 + Rand(<<key, "n">>, 40)
        ops == <<"add", "add", "add", "double", "shift">>
        rp(m) == FoldLeft(LAMBDA p, k : Append(p, <<Rand(<<key, "i", k>>, k), IF Rand(<<key, "d", k>>, 4) = 0 THEN Rand(<<key, "i", k>>, k) ELSE Rand(<<key, "j", k>>, k)>>),
                          <<>>, [k \in 1..m |-> k])
        hist == FoldLeft(LAMBDA h, k :
                  LET L == Len(h.p)
                      far == Rand(<<key, "far", k>>, 12)
                      pk(t) == Rand(<<key, t, k>>, L + 1)
                      i0 == IF far = 0 THEN -1 - Rand(<<key, "neg", k>>, 3) ELSE IF far = 1 THEN L + 1 + Rand(<<key, "pos", k>>, 3) ELSE pk("i")
                      j0 == IF far = 2 THEN -1 ELSE IF far = 3 THEN L + 1 ELSE pk("j")
                      op == ops[1 + Rand(<<key, "op", k>>, 5)]
                      c == <<op, i0, IF op = "shift" THEN 1 + Rand(<<key, "s", k>>, 6) ELSE j0>>
                  IN [calls |-> Append(h.calls, c), p |-> Apply(h.p, c)],
                [calls |-> <<>>, p |-> <<>>], [k \in 1..(n \div 2) |-> k])
        asc(t) == SortSeq(RandChain(<<key, t>>, 3 + Rand(<<key, t, "l">>, 20), 3), BLt)
        ca == asc("a")
    IN st' = CASE kind = 0 -> [t |-> "case", tag |-> "builder", a |-> hist.calls]
               [] kind = 1 -> [t |-> "case", tag |-> "analyse", a |-> rp(n)]
               [] kind = 2 -> [t |-> "case", tag |-> "product", a |-> <<ca, asc("b")>>]
               [] kind = 3 -> [t |-> "case", tag |-> "plus", a |-> <<ca, ca[1 + Rand(<<key, "x">>, Len(ca))]>>]
(* Programs past every word and byte boundary of the index sets (64, 128, 256). *)
PickLong == st.t = "longrnd" /\
    LET key == <<Seed, "long", st.b>>
        kind == st.b % 4
        n == <<60, 70, 125, 131, 190, 254, 260, 300, 380, 514, 765, 1028>>[1 + Rand(<<key, "n">>, 12)] + Rand(<<key, "m">>, 6)
        ops == <<"add", "add", "add", "double", "shift", "query">>
        rp(m) == FoldLeft(LAMBDA p, k : Append(p,
                     LET i == IF Rand(<<key, "l", k>>, 3) = 0 THEN k - 1 ELSE Rand(<<key, "i", k>>, k) IN
                     <<i, IF Rand(<<key, "d", k>>, 4) = 0 THEN i ELSE Rand(<<key, "j", k>>, k)>>),
                          <<>>, [k \in 1..m |-> k])
        hist == FoldLeft(LAMBDA h, k :
                  LET L == Len(h.p)
                      far == Rand(<<key, "far", k>>, 20)
                      pk(t) == IF Rand(<<key, t, k, "e">>, 3) = 0 THEN L ELSE Rand(<<key, t, k>>, L + 1)
                      i0 == IF far = 0 THEN -1 - Rand(<<key, "neg", k>>, 300) ELSE IF far = 1 THEN L + 1 + Rand(<<key, "pos", k>>, 300) ELSE pk("i")
                      j0 == IF far = 2 THEN -1 - Rand(<<key, "neg", k>>, 300) ELSE IF far = 3 THEN L + 1 + Rand(<<key, "pos", k>>, 300) ELSE pk("j")
                      op == LET o == ops[1 + Rand(<<key, "op", k>>, 6)] IN IF o = "query" /\ Rand(<<key, "q", k>>, 8) # 0 THEN "add" ELSE o
                      c == <<op, i0, IF op = "shift" THEN 1 + Rand(<<key, "s", k>>, IF Rand(<<key, "sl", k>>, 40) = 0 THEN 130 ELSE 4) ELSE j0>>
                  IN [calls |-> Append(h.calls, c), p |-> Apply(h.p, c)],
                [calls |-> <<>>, p |-> <<>>], [k \in 1..(n \div 2) |-> k])
        asc(t) == SortSeq(RandChain(<<key, t>>, 20 + Rand(<<key, t, "l">>, 120), IF Rand(<<key, t, "y">>, 3) = 0 THEN 0 ELSE 1), BLt)
        ca == asc("a")
    IN st' = CASE kind = 0 -> [t |-> "case", tag |-> "builderlong", a |-> hist.calls]
               [] kind = 1 -> [t |-> "case", tag |-> "analyse", a |-> rp(n)]
               [] kind = 2 -> [t |-> "case", tag |-> "product", a |-> <<ca, asc("b")>>]
               [] kind = 3 -> [t |-> "case", tag |-> "plus", a |-> <<ca, ca[1 + Rand(<<key, "x">>, Len(ca))]>>]
Next == Root \/ CallStep \/ ProgStep \/ AscStep \/ PairStart \/ PairStep \/ PickRnd \/ PickLong
Spec == Init /\ [][Next]_vars

(* calls that build p, then one more call of each kind at the boundaries *)
Build(p) == [k \in 1..Len(p) |-> <<"add", p[k][1], p[k][2]>>]
Edge(p) == LET n == Len(p) IN
    << <<"add", -1, 0>>, <<"add", 0, -1>>, <<"add", n+1, 0>>, <<"add", 0, n+1>>, <<"double", n+1, 0>>, <<"double", -1, 0>>,
       <<"shift", n+1, 1>>, <<"shift", -1, 2>>, <<"shift", n, 3>>, <<"double", 0, 0>>, <<"add", n, 0>> >>

ImplInv ==
    CASE st.t = "hist" -> st.calls # <<>> => Check("builder", st.calls)
      [] st.t = "prog" -> /\ Check("analyse", st.p)
                          /\ Check("builder", Build(st.p) \o Edge(st.p))
      [] st.t = "pair" -> Check("product", <<st.a, st.b>>)
      [] st.t = "asc" -> \A i \in 1..Len(st.c) : Check("plus", <<st.c, st.c[i]>>)
      [] st.t = "case" -> Check(st.tag, st.a)
      [] OTHER -> TRUE

(* the specification's own analyses agree with each other *)
ModelInv ==
    /\ st.t = "prog" => /\ WellFormedProg(st.p)
                        /\ \A i \in 0..Len(st.p) : AllDeps(st.p)[i+1] = Deps(st.p, i)
    /\ st.t = "hist" => st.p = After(st.calls) /\ WellFormedProg(st.p)
=============================================================================
