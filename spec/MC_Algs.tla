------------------------------ MODULE MC_Algs ------------------------------
(***************************************************************************)
(* C01.  Targets (exhaustive small, families large) x configurations.        *)
(***************************************************************************)
EXTENDS Algs, Targets, TLC

CONSTANTS Seed, EnsN, CfgN, KMax, TMax, Rounds, PerRound, EnsMid, EnsBig, ManyN, FreshEvery, TwinRuns, HugeRuns

VARIABLE st
vars == st

Judge(tag, a, r) ==
    /\ r.st = "ok"
    /\ \A i \in 1..Len(r.v.res) : GoodResult(r.v.res[i], a.n)
    /\ Len(r.v.which) > 0 /\ r.v.again = r.v.which
    /\ r.v.n = a.n /\ r.v.n2 = a.n
(* the answer does not depend on what the process did before *)
CheckFresh(tag, a) == LET r == Call("fresh:" \o tag, a) IN Report("fresh", a, r.st = "ok" /\ r.v.ok /\ r.v.same)
(* several targets that are alike, one after the other in one process *)
CheckTwin(a) == Report("twin", a, \A i \in 1..Len(a.ns) : LET b == [n |-> a.ns[i], cfgs |-> a.cfgs]  r == Call("algs", b) IN Judge("algs", b, r))
Check(tag, a) == IF tag = "twin" THEN CheckTwin(a) ELSE LET r == Call(tag, a) IN Report(tag, a, Judge(tag, a, r)) /\ (r.st = "ok" => TallyN("cov:algorithm-executions", 2 * Len(r.v.which)) /\ TallyN("cov:distinct-chains", Len(r.v.res)))

SeqList == SetToSeq(TotalSeqs)
LogList == SetToSeq(LogSeqs)
\* parameters that matter
Params(m) == CASE m \in {"fixed", "sliding"} -> (1..KMax) \X {0}
               [] m = "run" -> {1} \X (0..TMax)
               [] m = "hybrid" -> (1..KMax) \X (0..TMax)
CfgsFor(m, s) == {DictCfg(m, p[1], p[2], s, o) : p \in Params(m), o \in BOOLEAN}
Misc == {RunsCfg(s, o) : s \in TotalSeqs, o \in BOOLEAN} \cup {SeqCfg(s, o) : s \in TotalSeqs, o \in BOOLEAN} \cup {BinCfg(o) : o \in BOOLEAN}

Algs1(n, cs) == [t |-> "case", tag |-> "algs", a |-> [n |-> n, cfgs |-> SetToSeq({c \in cs : InRange(c, BBitLen(n))})]]
Ens(n, lo, step) == [t |-> "case", tag |-> "ens", a |-> [n |-> n, lo |-> lo, step |-> step]]

Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ \E b \in 0..(EnsN \div 16) : st' = [t |-> "ensb", b |-> b]
    \/ \E m \in Methods : \E s \in TotalSeqs : \E b \in 0..(CfgN \div 16) : st' = [t |-> "cfgb", m |-> m, s |-> s, b |-> b]
    \/ \E b \in 0..(CfgN \div 16) : st' = [t |-> "misc", b |-> b]
    \/ \E b \in 0..(ManyN \div 64) : st' = [t |-> "many", b |-> b]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..HugeRuns : st' = [t |-> "hugeb", b |-> b]
    \/ \E b \in 1..TwinRuns : st' = [t |-> "twinb", b |-> b]
    \/ \E i \in 1..EnsMid : st' = Ens(Target(<<Seed, "mid", i>>, 64), R(<<Seed, "midl", i>>, "l", 3), 3)
    \/ \E i \in 1..EnsBig : LET b == <<128, 256, 256, 521, 1024>>[1 + (i % 5)] IN
          st' = Ens(Target(<<Seed, "big", i>>, b), R(<<Seed, "bigl", i>>, "l", b \div 16), b \div 16)
EnsStep == st.t = "ensb" /\ \E i \in 0..15 : LET n == 16 * st.b + i IN n >= 1 /\ st' = Ens(BFromInt(n), 0, 1)
CfgStep == st.t = "cfgb" /\ \E i \in 0..15 : LET n == 16 * st.b + i IN n >= 1 /\
    {c \in CfgsFor(st.m, st.s) : InRange(c, BBitLen(BFromInt(n)))} # {} /\ st' = Algs1(BFromInt(n), CfgsFor(st.m, st.s))
MiscStep == st.t = "misc" /\ \E i \in 0..15 : LET n == 16 * st.b + i IN n >= 1 /\ st' = Algs1(BFromInt(n), Misc)
\* larger exhaustive range for the fast algorithms
ManyStep == st.t = "many" /\ \E i \in 0..63 : LET n == 64 * st.b + i IN n >= 1 /\
    st' = Algs1(BFromInt(n), {RunsCfg(CF("dichotomic"), FALSE), SeqCfg(CF("binary"), TRUE), SeqCfg(CF("sqrt"), FALSE), SeqCfg(Heur(<<"halving", "delta">>), TRUE), SeqCfg(Heur(<<"halving", "approx">>), FALSE),
        SeqCfg(CF("co_binary"), FALSE), SeqCfg(CF("dichotomic"), FALSE), BinCfg(TRUE), BinCfg(FALSE),
        DictCfg("sliding", 2 + (n % 4), 0, CF("dichotomic"), TRUE), DictCfg("fixed", 1 + (n % 5), 0, CF("binary"), FALSE),
        DictCfg("run", 1, n % 5, Heur(<<"halving", "delta">>), FALSE), DictCfg("hybrid", 1 + (n % 3), n % 7, CF("co_binary"), TRUE)})
(* random targets with configurations whose parameters match their runs *)
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        bits == <<16, 24, 64, 64, 128, 256, 300, 521, 1024>>[1 + R(key, "bits", 9)]
        w == 1 + R(key, "w", 20)
        n == IF R(key, "tune", 2) = 0 THEN Target(key, bits)
             ELSE LET z == RunsNear(key, w, 1 + R(key, "n", IMax(1, IMin(8, bits \div (2*w)))), R(key, "z", 4)) IN IF z = BZero THEN BOne ELSE z
        kk(j) == LET c == R(key, <<"kc", j>>, 4) IN IF c = 0 THEN w ELSE IF c = 1 THEN w + 1 ELSE IF c = 2 THEN 1 + R(key, <<"k", j>>, 8) ELSE 1 + R(key, <<"k", j>>, 140)
        tt(j) == LET c == R(key, <<"tc", j>>, 5) IN IF c = 0 THEN 0 ELSE IF c = 1 THEN w ELSE IF c = 2 THEN w + 1 ELSE IF c = 3 THEN R(key, <<"t", j>>, 12) ELSE R(key, <<"t", j>>, 140)
        mm(j) == <<"fixed", "sliding", "run", "hybrid">>[1 + R(key, <<"m", j>>, 4)]
        sq(j) == IF R(key, <<"sa", j>>, 3) = 0 THEN SeqList[1 + R(key, <<"s", j>>, Len(SeqList))] ELSE LogList[1 + R(key, <<"s", j>>, Len(LogList))]
        oo(j) == R(key, <<"o", j>>, 2) = 0
        cfg(j) == LET k == R(key, <<"kind", j>>, 12) IN
                  IF k = 0 THEN RunsCfg(sq(j), oo(j)) ELSE IF k = 1 THEN SeqCfg(sq(j), oo(j)) ELSE IF k = 2 THEN BinCfg(oo(j))
                  ELSE DictCfg(mm(j), kk(j), tt(j), sq(j), oo(j))
        cs == {cfg(j) : j \in 1..8}
        nn == IF BBitLen(n) > 1024 THEN BShr(n, BBitLen(n) - 1024) ELSE n
    IN {c \in cs : InRange(c, BBitLen(nn))} # {} /\ st' = Algs1(nn, cs)
(* targets of thousands of bits *)
PickHuge == st.t = "hugeb" /\
    LET key == <<Seed, "huge", st.b>>
        bits == <<1100, 1536, 2048, 2100, 3072, 4096>>[1 + (st.b % 6)]
        n0 == IF R(key, "rand", 2) = 0 THEN RandBits(<<key, "r">>, bits) ELSE Target(key, bits)
        n == IF BBitLen(n0) < 1030 THEN BAdd(n0, BPow2(1030 + R(key, "up", bits - 1030))) ELSE n0
        sq(j) == LogList[1 + R(key, <<"s", j>>, Len(LogList))]
        kk(j) == IF R(key, <<"kc", j>>, 3) = 0 THEN 60 + R(key, <<"k", j>>, 300) ELSE 2 + R(key, <<"k", j>>, 7)
        cs == {RunsCfg(sq(1), R(key, "o", 2) = 0), SeqCfg(sq(2), TRUE), BinCfg(FALSE), BinCfg(TRUE), DictCfg("sliding", kk(1), 0, sq(3), FALSE), DictCfg("sliding", kk(4), 0, sq(1), TRUE),
               DictCfg("hybrid", kk(2), R(key, "T", 300), sq(4), TRUE), DictCfg("fixed", kk(3), 0, sq(5), TRUE), DictCfg("run", 1, R(key, "T", 300), sq(1), TRUE), DictCfg("run", 1, 0, sq(2), FALSE)}
    IN {c \in cs : InRange(c, BBitLen(n))} # {} /\ st' = Algs1(n, cs)
PickTwin == st.t = "twinb" /\
    LET key == <<Seed, "twin", st.b>>
        x0 == Target(key, <<80, 128, 200, 300>>[1 + R(key, "bits", 4)])
        x == IF BBitLen(x0) < 70 THEN BAdd(x0, BPow2(70 + R(key, "up", 60))) ELSE x0
        sq(j) == LogList[1 + R(key, <<"s", j>>, Len(LogList))]
        cs == {RunsCfg(sq(1), FALSE), SeqCfg(sq(2), TRUE), BinCfg(FALSE), DictCfg("sliding", 2 + R(key, "K", 80), 0, sq(3), FALSE),
               DictCfg("hybrid", 1 + R(key, "K2", 7), R(key, "T", 70), sq(4), TRUE), DictCfg("fixed", 1 + R(key, "K3", 80), 0, sq(5), TRUE), DictCfg("run", 1, R(key, "T", 70), sq(1), TRUE)}
    IN st' = [t |-> "case", tag |-> "twin", a |-> [ns |-> <<x, TwinLow(key, x), TwinHigh(key, x), TwinLow(<<key, 1>>, x)>>, cfgs |-> SetToSeq(cs)]]
Next == PickHuge \/ PickTwin \/ Root \/ EnsStep \/ CfgStep \/ MiscStep \/ ManyStep \/ PickRnd
Spec == Init /\ [][Next]_vars
ImplInv == st.t = "case" =>
    /\ Check(st.tag, st.a)
    /\ (st.tag # "twin" /\ R(<<Seed, st.a>>, "fresh", FreshEvery) = 0) => CheckFresh(st.tag, st.a)
=============================================================================
