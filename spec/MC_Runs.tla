------------------------------ MODULE MC_Runs -------------------------------
(***************************************************************************)
(* C11.  Every valid chain of run lengths, in any order, is turned into a    *)
(* chain of runs.  Contract: valid and contains 2^l - 1 for every length;    *)
(* lengths above 2^64 - 1 are refused.  Design: for each addition a+b = c    *)
(* (a <= b), shift r(b) by up to a places, each shift made once.             *)
(***************************************************************************)
EXTENDS ChainGen, TLC

CONSTANTS Seed, MaxLen, MaxVal, DesignLen, Rounds, PerRound, MaxRandLen, RandVal, Huge, BigRuns

VARIABLE st
vars == st

ToInt(x) == IF x = <<>> THEN 0 ELSE IF Len(x) = 1 THEN x[1] ELSE x[1] + 32768 * x[2]
RunOf(l) == BOnes(ToInt(l))
Fits(l) == BBitLen(l) <= 64

Contract(lc, c) == IsAddChain(c) /\ \A i \in 1..Len(lc) : RunOf(lc[i]) \in Range(c)

(* Long chains of runs, as stretches <<s, l, n>>: (2^l - 1) << s and its n        *)
(* doublings.  When is (2^l - 1) << s the sum of two runs of ones?  Comparing the   *)
(* binary digits of 2^(s+a) + 2^(t+b) = 2^(s+l) + 2^t, s < t, and of the case s = t:  *)
(* only as the double of (2^l - 1) << (s-1); as (2^k - 1) << s plus                    *)
(* (2^(l-k) - 1) << (s+k); or, for l = 1, as 2^t plus (2^(s-t) - 1) << t.               *)
(* RunSumLemma checks this for small runs.                                               *)
MemR(rs, k, s, l) == \E j \in 1..k : rs[j][2] = l /\ rs[j][1] <= s /\ s <= rs[j][1] + rs[j][3]
SumR(rs, k, s, l) ==
    \/ MemR(rs, k, s - 1, l)
    \/ \E j \in 1..k : rs[j][2] < l /\ MemR(rs, j, s, rs[j][2]) /\ MemR(rs, k, s + rs[j][2], l - rs[j][2])
    \/ l = 1 /\ \E j \in 1..k : rs[j][2] <= s /\ MemR(rs, k, s - rs[j][2], 1) /\ MemR(rs, k, s - rs[j][2], rs[j][2])
BigContract(lc, rs, whole) ==
    /\ whole => /\ rs # <<>> /\ rs[1][1] = 0 /\ rs[1][2] = 1
                /\ \A k \in 2..Len(rs) : SumR(rs, k - 1, rs[k][1], rs[k][2])
                /\ \A k \in 1..Len(rs), j \in 1..Len(rs) : k < j /\ rs[k][2] = rs[j][2] =>
                        rs[k][1] + rs[k][3] < rs[j][1] \/ rs[j][1] + rs[j][3] < rs[k][1]
    /\ \A i \in 1..Len(lc) : MemR(rs, Len(rs), 0, ToInt(lc[i]))
RunN(s, l) == (2^l - 1) * 2^s
RunSumLemma(m) ==
    \A s, l \in 0..m : l > 0 =>
      LET all == {<<t, k>> : t \in 0..m, k \in 1..m} IN
      \A x \in all, y \in all : RunN(x[1], x[2]) + RunN(y[1], y[2]) = RunN(s, l) =>
          \/ x = y /\ x = <<s - 1, l>>
          \/ \E p \in {<<x, y>>, <<y, x>>} :
                \/ p[1][1] = s /\ p[2] = <<s + p[1][2], l - p[1][2]>>
                \/ l = 1 /\ p[1] = <<s - p[2][2], 1>> /\ p[2][1] = s - p[2][2]

Judge(tag, lc, r) ==
    r.st = "ok" /\ r.v.after = lc /\
    IF tag = "runs" THEN r.v.ok /\ Contract(lc, r.v.c)
    ELSE IF tag = "bigruns" THEN r.v.ok /\ BigContract(lc, r.v.runs, r.v.whole)
    ELSE ~r.v.ok      \* "huge": some length does not fit
Check(tag, lc) == LET r == Call(IF tag = "huge" THEN "runs" ELSE tag, lc) IN Report(tag, lc, Judge(tag, lc, r))

(* design state: position k in the length chain, output so far, shifts done *)
Pick(lc, k) == CHOOSE p \in (1..(k-1)) \X (1..(k-1)) : BLe(lc[p[1]], lc[p[2]]) /\ BAdd(lc[p[1]], lc[p[2]]) = lc[k]
DesignStep(s) ==
    LET p == Pick(s.lc, s.k)
        a == ToInt(s.lc[p[1]])  b == ToInt(s.lc[p[2]])
        done == IF b \in DOMAIN s.sh THEN s.sh[b] ELSE 0
        new == [i \in 1..(IF a > done THEN a - done ELSE 0) |-> BShl(BOnes(b), done + i)]
    IN [s EXCEPT !.k = @ + 1, !.out = @ \o new \o <<BOnes(a + b)>>,
                 !.sh = [x \in DOMAIN s.sh \cup {b} |-> IF x = b THEN (IF a > done THEN a ELSE done) ELSE s.sh[x]]]

Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ st' = [t |-> "valid", c |-> <<BOne>>]
    \/ Huge /\ \E h \in 1..6 : st' = [t |-> "huge", h |-> h]
    \/ \E b \in 1..BigRuns : st' = [t |-> "big", b |-> b]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
Grow == st.t = "valid" /\ Len(st.c) < MaxLen /\
        \E v \in NextVals(st.c) : ToInt(v) <= MaxVal /\ st' = [t |-> "valid", c |-> Append(st.c, v)]
Start == st.t = "valid" /\ Len(st.c) <= DesignLen /\ st' = [t |-> "run", lc |-> st.c, k |-> 2, out |-> <<BOne>>, sh |-> [x \in {} |-> 0]]
Step == st.t = "run" /\ st.k <= Len(st.lc) /\ st' = DesignStep(st)
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        c == RandChain(key, 4 + Rand(<<key, "len">>, MaxRandLen), Rand(<<key, "s">>, 4))
        small == SelectSeq(c, LAMBDA v : TRUE)
        \* the longest prefix of values up to RandVal
        cut == IF \E j \in 1..Len(c) : BLt(BFromInt(RandVal), c[j])
               THEN (CHOOSE j \in 1..Len(c) : BLt(BFromInt(RandVal), c[j]) /\ \A m \in 1..(j-1) : BLe(c[m], BFromInt(RandVal))) - 1
               ELSE Len(c)
        d == SubSeq(c, 1, cut)
    IN st' = [t |-> "case", c |-> IF Rand(<<key, "sort">>, 3) = 0 THEN SortSeq(d, BLt) ELSE d]
Next == Root \/ Grow \/ Start \/ Step \/ PickRnd
Spec == Init /\ [][Next]_vars

HugeChain(h) ==
    LET p == [i \in 1..65 |-> BPow2(i-1)] IN      \* 1 .. 2^64
    CASE h = 1 -> p
      [] h = 2 -> Append(SubSeq(p, 1, 64), BAdd(p[64], p[64]))
      [] h = 3 -> Append(p, BPow2(65))
      [] h = 4 -> Append(p, BAdd(p[65], BOne))
      [] h = 5 -> Append(SubSeq(p, 1, 64), BAdd(p[64], p[64])) \o <<BAdd(p[65], BFromInt(4))>>
      [] h = 6 -> Append(SubSeq(p, 1, 64), BPow2(64)) \o [i \in 1..140 |-> BPow2(64 + i)]

(* Lengths around powers of two up to a little over 2^16: the boundary by       *)
(* halving and decrementing, then sums of its neighbours with the small members.  *)
RECURSIVE DownTo(_)
DownTo(n) == IF n = 1 THEN <<1>> ELSE IF n % 2 = 0 THEN Append(DownTo(n \div 2), n) ELSE Append(DownTo(n - 1), n)
BigCase(b) ==
    LET key == <<Seed, "big", b>>
        n == IF b = 1 THEN 65536
             ELSE <<127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 8192, 300, 700, 1500, 3000, 6000>>[1 + Rand(<<key, "n">>, 20)]
        d == DownTo(n)
        base == SortSeq(d \o SelectSeq(<<2, 3, 4>>, LAMBDA v : v \notin {d[i] : i \in 1..Len(d)}), LAMBDA x, y : x < y)
        grow == FoldLeft(LAMBDA c, k :
                    LET lo == SelectSeq(c, LAMBDA v : v <= 12)
                        hi == SelectSeq(c, LAMBDA v : v > n \div 2 /\ v + 12 < n + 400)
                        x == IF hi = <<>> \/ Rand(<<key, "w", k>>, 4) = 0 THEN lo[1 + Rand(<<key, "x", k>>, Len(lo))] ELSE hi[1 + Rand(<<key, "y", k>>, Len(hi))]
                        v == x + lo[1 + Rand(<<key, "z", k>>, Len(lo))]
                    IN IF \E i \in 1..Len(c) : c[i] = v THEN c ELSE Append(c, v), base, [k \in 1..(4 + Rand(<<key, "g">>, 10)) |-> k])
        sorted == IF Rand(<<key, "sort">>, 3) = 0 THEN SortSeq(grow, LAMBDA x, y : x < y) ELSE grow
    IN [i \in 1..Len(sorted) |-> BFromInt(sorted[i])]

ModelInv ==
    /\ st.t = "root" => RunSumLemma(5)
    /\ st.t = "big" => IsAddChain(BigCase(st.b))
    /\ st.t = "run" /\ st.k > Len(st.lc) => Contract(st.lc, st.out)
    /\ st.t = "huge" => IsAddChain(HugeChain(st.h)) /\ \E i \in 1..Len(HugeChain(st.h)) : ~Fits(HugeChain(st.h)[i])
ImplInv == CASE st.t \in {"valid", "case"} -> Check("runs", st.c)
             [] st.t = "big" -> Check("bigruns", BigCase(st.b))
             [] st.t = "huge" -> Check("huge", HugeChain(st.h))
             [] OTHER -> TRUE
=============================================================================
