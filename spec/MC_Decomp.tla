----------------------------- MODULE MC_Decomp -----------------------------
(* C09.  A behaviour picks a method, parameters and x, runs the design's     *)
(* scan to completion and then asks the implementation; the same contract    *)
(* judges both.  Larger x skip the scan ("wide" states).                     *)
EXTENDS Decomp, Targets, TLC, SequencesExt

CONSTANTS Seed,
          SmallX,        \* exhaustive: x in 1..SmallX with the design scan
          SmallK, SmallT,
          MidX,          \* exhaustive: x in 1..MidX against the implementation only
          MidKs, MidTs,
          Rounds, PerRound, MaxBits, WideN, TwinRuns   \* random structured cases

VARIABLE st
vars == st

Methods == {"fixed", "sliding", "run", "hybrid"}

(* A negative parameter -j stands for 2^64 - j, the top of the word. *)
Sat(k) == IF k < 0 THEN 2000000000 ELSE k
Judge(tag, a, r) ==
    LET m == a[1]  K == Sat(a[2])  T == Sat(a[3])  x == a[4] IN
    r.st = "ok" /\
    LET ts == r.v.terms IN
    /\ Represents(ts, x)
    /\ Shape(m, K, T, ts)
    /\ r.v.int = x
    /\ r.v.x = x
    /\ DictOf(ts, r.v.dict)

(* numbers that are alike, one after the other in one process *)
CheckTwin(as) == Report("twin", as, \A i \in 1..Len(as) : LET r == Call("decomp", as[i]) IN Judge("decomp", as[i], r))
Check(tag, a) == IF tag = "twin" THEN CheckTwin(a) ELSE LET r == Call(tag, a) IN Report(tag, a, Judge(tag, a, r))

(* parameters that matter for a method *)
Params(m, Ks, Ts) ==
    CASE m = "fixed" \/ m = "sliding" -> Ks \X {0}
      [] m = "run" -> {1} \X Ts
      [] m = "hybrid" -> Ks \X Ts

Scan(m, K, T, x) == [t |-> "scan", m |-> m, K |-> K, T |-> T, x |-> x, ph |-> 1,
                     y |-> x, h |-> BBitLen(x), out |-> <<>>]

WordTop == {0 - 1, 0 - 2, 0 - 8, 0 - 600, 2147483647}

Init == st = [t |-> "root"]

Root ==
    /\ st.t = "root"
    /\ \/ \E m \in Methods : \E p \in Params(m, SmallK, SmallT) :
            st' = [t |-> "small", m |-> m, K |-> p[1], T |-> p[2]]
       \/ \E m \in Methods : \E p \in Params(m, MidKs, MidTs) : \E b \in 0..(MidX \div 256) :
            st' = [t |-> "mid", m |-> m, K |-> p[1], T |-> p[2], b |-> b]
       \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
       \/ \E b \in 1..TwinRuns : st' = [t |-> "twinb", b |-> b]
       \/ \E b \in 1..WideN : st' = [t |-> "wide", b |-> b]
       \/ \E m \in Methods : \E p \in Params(m, WordTop \cup {3}, WordTop \cup {0, 3}) :
            st' = [t |-> "huge", m |-> m, K |-> p[1], T |-> p[2]]

PickSmall == st.t = "small" /\ \E x \in 1..SmallX : st' = Scan(st.m, st.K, st.T, BFromInt(x))
PickMid   == st.t = "mid" /\ \E i \in 0..255 :
                LET x == 256 * st.b + i IN
                x \in 1..MidX /\ st' = [t |-> "case", a |-> <<st.m, st.K, st.T, BFromInt(x)>>]
PickHuge  == st.t = "huge" /\ \E i \in 1..24 :
                LET x == IF i <= 12 THEN BFromInt(i) ELSE Target(<<Seed, "huge", i>>, 64 * (i - 11)) IN
                st' = [t |-> "case", a |-> <<st.m, st.K, st.T, x>>]
PickRnd   == st.t = "rnd" /\ \E i \in 1..PerRound :
                LET key == <<Seed, st.b, i>>
                    ms  == <<"fixed", "sliding", "run", "hybrid", "hybrid", "run">>
                    m   == ms[1 + R(key, "m", 6)]
                    Tg  == Target(key, MaxBits)
                    kk  == LET c == R(key, "kc", 3) IN IF c = 0 THEN 1 + R(key, "K", 8)
                              ELSE IF c = 1 THEN 1 + R(key, "K", 24) ELSE 1 + R(key, "K", 130)
                    tt  == LET c == R(key, "tc", 4) IN IF c = 0 THEN 0 ELSE IF c = 1 THEN kk + R(key, "T", 6)
                              ELSE IF c = 2 THEN R(key, "T", 24) ELSE R(key, "T", 131)
                    \* half of the run/hybrid cases get runs tuned to K and T
                    x   == IF R(key, "tune", 2) = 0 THEN Tg
                           ELSE RunsNear(key, IF R(key, "kt", 2) = 0 \/ tt = 0 THEN kk ELSE tt,
                                         1 + R(key, "nn", 5), R(key, "zz", 3))
                IN st' = [t |-> "case", a |-> <<m, IF m = "run" THEN 1 ELSE kk, IF m \in {"run", "hybrid"} THEN tt ELSE 0, x>>]

(* a few bits very far apart: exponents beyond 2^16 *)
Sparse(key, n) == FoldLeft(LAMBDA x, k : LET e == R(key, <<"e", k>>, n)  w == 1 + R(key, <<"w", k>>, 9) IN
                              IF BShr(x, e) = BZero \/ BMod(BShr(x, e), BPow2(w)) = BZero THEN BAdd(x, BShl(BAdd(BMul(BTwo, RandBits(<<key, "v", k>>, w - 1)), BOne), e)) ELSE x,
                          BShl(BOne, n), [k \in 1..(2 + R(key, "cnt", 6)) |-> k])
PickWide  == st.t = "wide" /\ \E m \in Methods : 
                LET key == <<Seed, "wide", st.b, m>>
                    n == <<255, 256, 300, 32768, 65535, 65536, 66000, 70000, 131072, 140000>>[1 + (st.b % 10)]
                    x == Sparse(key, n)
                IN st' = [t |-> "case", a |-> <<m, IF m = "run" THEN 1 ELSE 1 + R(key, "K", 12), IF m \in {"run", "hybrid"} THEN R(key, "T", 12) ELSE 0, x>>]
PickTwin  == st.t = "twinb" /\ \E m \in Methods :
                LET key == <<Seed, "twin", st.b, m>>
                    x0 == Target(key, 256)
                    x == IF BBitLen(x0) < 70 THEN BAdd(x0, BPow2(70 + R(key, "up", 60))) ELSE x0
                    K == IF m = "run" THEN 1 ELSE 1 + R(key, "K", 90)
                    T == IF m \in {"run", "hybrid"} THEN R(key, "T", 90) ELSE 0
                    (* the same window twice, but for one bit *)
                    w == BAdd(BShl(x, BBitLen(x) + R(key, "gap", 9)), TwinLow(key, x))
                IN st' = [t |-> "twin", a |-> <<<<m, K, T, x>>, <<m, K, T, TwinLow(key, x)>>, <<m, K, T, TwinHigh(key, x)>>, <<m, K, T, x>>,
                                                <<m, IF m = "run" THEN 1 ELSE BBitLen(x), IF m = "run" THEN T ELSE 0, w>>>>]
Step ==
    /\ st.t = "scan" /\ st.h > 0
    /\ st' = LET n == CASE st.m = "fixed" -> FixedStep(st.y, st.K, st.h, st.out)
                        [] st.m = "sliding" -> SlidingStep(st.y, st.K, st.h, st.out)
                        [] st.m = "run" -> RunStep(st.y, st.T, st.h, st.out)
                        [] st.m = "hybrid" /\ st.ph = 1 -> LongRunStep(st.y, st.K, st.T, st.h, st.out)
                        [] st.m = "hybrid" /\ st.ph = 2 -> SlidingStep(st.y, st.K, st.h, st.out)
             IN [st EXCEPT !.h = n.h, !.out = n.out]
(* hybrid: remove the long runs, then slide over what is left *)
SecondPass ==
    /\ st.t = "scan" /\ st.h = 0 /\ st.m = "hybrid" /\ st.ph = 1
    /\ st' = LET y == BSub(st.y, TermsSum(st.out)) IN [st EXCEPT !.ph = 2, !.y = y, !.h = BBitLen(y)]
Finish ==
    /\ st.t = "scan" /\ st.h = 0 /\ (st.m # "hybrid" \/ st.ph = 2)
    /\ st' = [t |-> "done", m |-> st.m, K |-> st.K, T |-> st.T, x |-> st.x, out |-> SortTerms(st.out)]

Next == PickTwin \/ Root \/ PickSmall \/ PickMid \/ PickHuge \/ PickRnd \/ PickWide \/ Step \/ SecondPass \/ Finish
Spec == Init /\ [][Next]_vars

(* the scan never loses or invents bits *)
ScanInv == st.t = "scan" =>
    \A i, j \in 1..Len(st.out) : i # j => st.out[i].e # st.out[j].e

DesignInv == st.t = "done" => Contract(st.m, st.K, st.T, st.x, st.out)

ImplInv ==
    /\ st.t = "done" => /\ Check("decomp", <<st.m, st.K, st.T, st.x>>)
                        /\ LET r == Call("decomp", <<st.m, st.K, st.T, st.x>>) IN
                           Tally("info:design-equal", r.v.terms = st.out)
    /\ st.t = "case" => Check("decomp", st.a)
    /\ st.t = "twin" => Check("twin", st.a)
=============================================================================
