------------------------------- MODULE MC_Seq -------------------------------
(***************************************************************************)
(* C08.  Target lists (exhaustive over a small range in every order and with *)
(* repeats, random up to 256 bits) x sequence algorithms; the design of both *)
(* methods is checked on the same small sets.                                 *)
(***************************************************************************)
EXTENDS Algs, Targets, SeqDesign, TLC

CONSTANTS Seed, LenA, ValA, LenB, ValB, DesignLen, DesignVal, StratVal, Rounds, PerRound, TwinRuns, WideRuns

VARIABLE st
vars == st
AllSeqs == TotalSeqs \cup PartialSeqs

BagEq(s, t) == Len(s) = Len(t) /\ \A v \in Range(s) : Cardinality({i \in 1..Len(s) : s[i] = v}) = Cardinality({i \in 1..Len(t) : t[i] = v})
Judge(tag, a, r) ==
    /\ r.st = "ok"
    /\ BagEq(a.targets, r.v.targets)
    /\ a.seq \in PartialSeqs \/ r.v.ok
    /\ r.v.ok => IsAddChain(r.v.chain) /\ Range(a.targets) \subseteq Range(r.v.chain)
(* lists that are alike, one after the other in one process *)
CheckTwin(a) == Report("twin", a, \A i \in 1..Len(a.lists) : LET b == [targets |-> a.lists[i], seq |-> a.seq]  r == Call("seq", b) IN Judge("seq", b, r))
Check(tag, a) == IF tag = "twin" THEN CheckTwin(a) ELSE LET r == Call(tag, a) IN Report(tag, a, Judge(tag, a, r)) /\ (r.st = "ok" => Tally("cov:failed-partial", ~r.v.ok))

Bits(ts) == SetMax({BBitLen(ts[i]) : i \in 1..Len(ts)})
Fits(s, ts) == Bits(ts) <= SeqBits(s)
Call1(ts, s) == Check("seq", [targets |-> ts, seq |-> s])
CallAll(ts) == \A s \in AllSeqs : Fits(s, ts) => Call1(ts, s)

Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ \E v \in 1..ValA : st' = [t |-> "list", ts |-> <<v>>, max |-> ValA, n |-> LenA]
    \/ \E v \in 1..ValB : st' = [t |-> "list", ts |-> <<v>>, max |-> ValB, n |-> LenB]
    \/ \E v \in 1..DesignVal : st' = [t |-> "set", ts |-> {v}, top |-> v]
    \/ \E n \in 1..StratVal : st' = [t |-> "strat", n |-> n]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..TwinRuns : st' = [t |-> "twinb", b |-> b]
    \/ \E b \in 1..WideRuns : st' = [t |-> "wideb", b |-> b]
Grow == st.t = "list" /\ Len(st.ts) < st.n /\ \E v \in 1..st.max : st' = [st EXCEPT !.ts = Append(@, v)]
GrowSet == st.t = "set" /\ Cardinality(st.ts) < DesignLen /\ \E v \in (st.top+1)..DesignVal : st' = [st EXCEPT !.ts = @ \cup {v}, !.top = v]
(* The Bos-Coster loop *)
StartLoop == st.t = "set" /\ \E hs \in HLists : st' = [t |-> "loop", ts |-> st.ts, hs |-> hs, proto |-> {1, 2} \cup st.ts, c |-> {}]
Loop == st.t = "loop" /\ Cardinality(st.proto) > 2 /\
    LET tgt == SetMax(st.proto)
        f == st.proto \ {tgt}
        S == FirstS(st.hs, f, tgt)
    IN IF S = {} THEN st' = [t |-> "fail", hs |-> st.hs]
       ELSE \E sug \in S : st' = [st EXCEPT !.proto = f \cup sug, !.c = @ \cup {tgt}]

PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        sl == LET all == SetToSeq(TotalSeqs) IN IF R(key, "p", 12) = 0 THEN <<Heur(<<>>), Heur(<<"halving">>)>> ELSE IF R(key, "lg", 3) = 0 THEN all ELSE SetToSeq(LogSeqs)
        s == sl[1 + R(key, "s", Len(sl))]
        maxb == IMin(SeqBits(s), <<12, 40, 64, 130, 256>>[1 + R(key, "mb", 5)])
        n == IF SeqBits(s) = 5 THEN 1 + R(key, "n", 4)
             ELSE IF s \in LogSeqs /\ R(key, "ln", 10) = 0 THEN 9 + R(key, "n", 30) ELSE 1 + R(key, "n", 8)
        base(j) == LET b == 1 + R(key, <<"b", j>>, maxb) IN IF b >= 8 THEN Target(<<key, "t", j>>, b) ELSE BFromInt(1 + R(key, <<"v", j>>, IF b < 2 THEN 1 ELSE (IF b > 6 THEN 60 ELSE 7)))
        clip(x) == IF BBitLen(x) > maxb THEN BShr(x, BBitLen(x) - maxb) ELSE x
        elt(j) == LET c == R(key, <<"c", j>>, 12)
                      prev == base(1 + R(key, <<"pv", j>>, n))
                  IN CASE c = 0 -> prev                                       \* repeats
                       [] c = 1 -> BOne [] c = 2 -> clip(BTwo)
                       [] c = 3 -> clip(BShl(prev, 1 + R(key, <<"sh", j>>, 4)))   \* multiples
                       [] c = 4 -> clip(BAdd(prev, BOne)) 
                       [] c = 5 -> IF prev = BOne THEN prev ELSE BSub(prev, BOne)
                       [] c = 6 -> clip(BMul(prev, BFromInt(3)))
                       [] OTHER -> base(j)
    IN st' = [t |-> "case", a |-> [targets |-> [j \in 1..n |-> clip(elt(j))], seq |-> s]]
LogList == SetToSeq(LogSeqs)
PickTwin == st.t = "twinb" /\
    LET key == <<Seed, "twin", st.b>>
        n == 1 + R(key, "n", 4)
        elt(j) == LET x == Target(<<key, j>>, 200) IN IF BBitLen(x) < 70 THEN BAdd(x, BPow2(70 + R(key, <<"u", j>>, 60))) ELSE x
        ts == [j \in 1..n |-> elt(j)]
        k == 1 + R(key, "k", n)
    IN st' = [t |-> "twin", a |-> [lists |-> <<ts, [ts EXCEPT ![k] = TwinLow(key, @)], [ts EXCEPT ![k] = TwinHigh(key, @)], [j \in 1..n |-> TwinLow(<<key, j>>, ts[j])]>>,
                                   seq |-> LogList[1 + R(key, "s", Len(LogList))]]]
(* few targets, very far apart *)
PickWide == st.t = "wideb" /\ \E s \in LogSeqs :
    LET key == <<Seed, "wide", st.b, s>>
        n == 1 + R(key, "n", 3)
        elt(j) == BAdd(BShl(BAdd(BOne, RandBits(<<key, j>>, 1 + R(key, <<"w", j>>, 20))), <<300, 600, 1020, 1100, 1500>>[1 + R(key, <<"b", j>>, 5)] + R(key, <<"e", j>>, 30)), BFromInt(R(key, <<"c", j>>, 3)))
    IN st' = [t |-> "wide", a |-> [targets |-> [j \in 1..n |-> elt(j)], seq |-> s]]
Next == PickTwin \/ PickWide \/ Root \/ Grow \/ GrowSet \/ StartLoop \/ Loop \/ PickRnd
Spec == Init /\ [][Next]_vars

Nats(ts) == [i \in 1..Len(ts) |-> BFromInt(ts[i])]
ImplInv ==
    CASE st.t = "list" -> CallAll(Nats(st.ts))
      [] st.t = "case" -> Fits(st.a.seq, st.a.targets) => Call1(st.a.targets, st.a.seq)
      [] st.t = "twin" -> Check("twin", st.a)
      [] st.t = "wide" -> Call1(st.a.targets, st.a.seq)
      [] OTHER -> TRUE

(* ---- design ---------------------------------------------------------------- *)
LoopInv == st.t = "loop" =>
    /\ {1, 2} \subseteq st.proto \/ st.ts = {1}
    /\ st.ts \subseteq st.proto \cup st.c
    /\ \A v \in st.c : \A w \in st.proto : w < v
    /\ \A v \in st.c : \E a \in st.proto \cup st.c : a < v /\ (v - a) \in st.proto \cup st.c
    /\ (Cardinality(st.proto) = 2 => IsChainSet({1, 2} \cup st.c) /\ st.ts \subseteq {1, 2} \cup st.c)
FailInv == st.t = "fail" => ~TotalH(st.hs)
CFInv ==
    /\ st.t = "set" => \A s \in Strategies : (s = "total" => st.top <= 14) =>
         LET c == CFChainI(s, Asc(st.ts)) IN IsChainI(c) /\ st.ts \subseteq Rg(c)
    /\ st.t = "strat" => \A s \in Strategies : KsOk(s, st.n)
(* The same results as the implementation, counted, not demanded. *)
InfoInv == (st.t = "set" /\ st.top <= 14) => \A s \in Strategies :
    LET r == Call("seq", [targets |-> Nats(Asc(st.ts)), seq |-> CF(s)]) IN
    (r.st = "ok" /\ r.v.ok) => Tally("info:design-equal", r.v.chain = Nats(CFChainI(s, Asc(st.ts)))) /\ Tally("info:design-compared", TRUE)
=============================================================================
