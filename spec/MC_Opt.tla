------------------------------- MODULE MC_Opt -------------------------------
(***************************************************************************)
(* C10.  Every valid chain in any element order (grown by legal steps) is    *)
(* given to the optimiser; the result must be a valid subsequence with the   *)
(* same ends.  The design of the optimiser (count indispensable operands,    *)
(* delete the rest front to back) is modelled and judged the same way.       *)
(***************************************************************************)
EXTENDS ChainGen, TLC

CONSTANTS Seed, MaxLen, DesignLen, Rounds, PerRound, MaxRandLen, LongRuns

VARIABLE st
vars == st
Counts == <<127, 128, 129, 254, 255, 256, 257, 258, 384, 512>>

Contract(c, o) ==
    /\ IsAddChain(o)
    /\ o[1] = c[1] /\ o[Len(o)] = c[Len(c)]
    /\ IsSubseqOf(o, c)

Judge(tag, c, r) ==
    r.st = "ok" /\
    LET v == r.v IN
    /\ v.ok /\ v.ok2
    /\ Contract(c, v.c) /\ Contract(c, v.c2)
    /\ v.after = c /\ v.after2 = c
Check(tag, c) == LET r == Call(tag, c) IN
                 /\ Tally("cov:shortened", r.st = "ok" /\ r.v.ok /\ Len(r.v.c) < Len(c))
                 /\ Report(tag, c, Judge(tag, c, r))

(* ------------- design: one deletion decision per step ------------- *)
OpsOf(c, k) == {p \in (1..(k-1)) \X (1..(k-1)) : p[1] <= p[2] /\ BAdd(c[p[1]], c[p[2]]) = c[k]}
AllOps(c) == [k \in 1..Len(c) |-> IF k = 1 THEN {} ELSE OpsOf(c, k)]
Needed(ops) == UNION {UNION {{p[1], p[2]} : p \in ops[k]} : k \in {k \in DOMAIN ops : Cardinality(ops[k]) = 1}}
Decide(s) ==
    LET k == s.k IN
    IF k \in Needed(s.ops) THEN [s EXCEPT !.k = k + 1]
    ELSE [s EXCEPT !.k = k + 1, !.rem = @ \cup {k},
                   !.ops = [l \in DOMAIN s.ops |-> IF l > k THEN {p \in s.ops[l] : p[1] # k /\ p[2] # k} ELSE s.ops[l]]]
Kept(s) == LET idx == SetToSortSeq((1..Len(s.c)) \ s.rem, LAMBDA x, y : x < y)
           IN [i \in 1..Len(idx) |-> s.c[idx[i]]]

Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ st' = [t |-> "valid", c |-> <<BOne>>]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..LongRuns : st' = [t |-> "longrnd", b |-> b]
Grow == st.t = "valid" /\ Len(st.c) < MaxLen /\ \E v \in NextVals(st.c) : st' = [t |-> "valid", c |-> Append(st.c, v)]
Start == st.t = "valid" /\ Len(st.c) <= DesignLen /\ st' = [t |-> "opt", c |-> st.c, k |-> 2, ops |-> AllOps(st.c), rem |-> {}]
DecideStep == st.t = "opt" /\ st.k < Len(st.c) /\ st' = Decide(st)
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        len == 4 + Rand(<<key, "len">>, MaxRandLen)
        k == Rand(<<key, "kind">>, 4)
        c == CASE k = 0 -> RandChain(key, len, Rand(<<key, "s">>, 4))
               [] k = 1 -> RandUnion(key, 4 + Rand(<<key, "l2">>, len), 2 + Rand(<<key, "m">>, 2))
               [] k = 2 -> SortSeq(RandUnion(key, 4 + Rand(<<key, "l2">>, len), 2 + Rand(<<key, "m">>, 3)), BLt)
               [] k = 3 -> SortSeq(RandChain(key, len, 2), BLt)   \* dense: many alternatives
    IN st' = [t |-> "case", c |-> c]
(* One element an operand of the only operation of exactly n others: 2 in     *)
(* 1, 2, 3, 5, 7, ... and, scaled, further on.                               *)
Counted(n, lead) ==
    LET dbl == [j \in 1..lead |-> BPow(BTwo, j - 1)]
        s == BPow(BTwo, lead - 1)
    IN dbl \o <<BMul(s, BTwo), BMul(s, BFromInt(3))>> \o [j \in 1..(n-1) |-> BMul(s, BFromInt(2*j + 3))]
PickCount == st.t = "longrnd" /\ st.b <= Len(Counts) /\ \E lead \in {1, 2, 5} :
    st' = [t |-> "case", c |-> Counted(Counts[st.b], lead)]
(* Long chains: far more uses of one element, more elements and wider values *)
(* than a small counter or a machine word holds.                             *)
PickLong == st.t = "longrnd" /\
    LET key == <<Seed, "long", st.b>>
        k == st.b % 6
        dbl(m) == [j \in 1..m |-> BPow(BTwo, j - 1)]
        len == 40 + Rand(<<key, "len">>, 110)
        (* binary method: every other element needs the 1 *)
        bin(m) == FoldLeft(LAMBDA c, j : LET d == BAdd(c[Len(c)], c[Len(c)]) IN
                       IF Rand(<<key, "b", j>>, 12) = 0 THEN Append(c, d) ELSE c \o <<d, BAdd(d, BOne)>>, <<BOne>>, [j \in 1..m |-> j])
        (* sums just above a word boundary: equal low words, different high ones *)
        wide == LET w == <<31, 32, 62, 63, 64, 65, 127, 128>>[1 + Rand(<<key, "w">>, 8)] IN
                FoldLeft(LAMBDA c, j :
                    LET L == Len(c)
                        i1 == IF Rand(<<key, "t", j>>, 3) # 0 THEN L - Rand(<<key, "i", j>>, IF L < 6 THEN L ELSE 6) ELSE 1 + Rand(<<key, "i2", j>>, L)
                        i2 == 1 + Rand(<<key, "j", j>>, IF Rand(<<key, "s", j>>, 2) = 0 /\ L > 5 THEN 5 ELSE L)
                        v == BAdd(c[i1], c[i2])
                    IN IF v \in Range(c) THEN c ELSE Append(c, v), dbl(w + 1), [j \in 1..(10 + Rand(<<key, "e">>, 20)) |-> j])
        arith == LET m == 60 + Rand(<<key, "m">>, 80) IN [j \in 1..m |-> BFromInt(j)]
        c == CASE k = 0 -> RandChain(key, len, Rand(<<key, "s">>, 4))
               [] k = 1 -> RandUnion(key, 30 + Rand(<<key, "l2">>, 40), 2 + Rand(<<key, "m">>, 3))
               [] k = 2 -> SortSeq(RandUnion(key, 30 + Rand(<<key, "l2">>, 40), 2 + Rand(<<key, "m">>, 2)), BLt)
               [] k = 3 -> bin(IF st.b < 6 THEN 280 ELSE 20 + Rand(<<key, "bn">>, 140))
               [] k = 4 -> wide
               [] k = 5 -> IF Rand(<<key, "ar">>, 3) = 0 THEN arith ELSE arith \o SelectSeq([j \in 1..Len(wide) |-> wide[j]], LAMBDA v : v \notin Range(arith))
    IN st' = [t |-> "case", c |-> c]
Next == Root \/ Grow \/ Start \/ DecideStep \/ PickRnd \/ PickLong \/ PickCount
Spec == Init /\ [][Next]_vars

ModelInv ==
    /\ st.t = "valid" => IsAddChainDef(st.c)
    /\ st.t = "case" => IsAddChain(st.c)
    /\ st.t = "opt" => \A l \in 2..Len(st.c) : l \in st.rem \/ st.ops[l] # {}
    /\ (st.t = "opt" /\ st.k >= Len(st.c)) => Contract(st.c, Kept(st))
ImplInv == CASE st.t \in {"valid", "case"} -> Check("optimize", st.c) [] OTHER -> TRUE
=============================================================================
