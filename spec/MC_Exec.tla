------------------------------- MODULE MC_Exec -------------------------------
(***************************************************************************)
(* C12 against the real executor.  TLC enumerates completion orders (which   *)
(* running algorithm finishes next) for every n and limit; each one drives   *)
(* the real Parallel.Execute through instrumented algorithms, and the event  *)
(* trace it records must be a behaviour of ExecObs with the results in place. *)
(***************************************************************************)
EXTENDS Algs, Targets, TLC

CONSTANTS Seed, MaxN, ExtraLimit, Repeats, EnsRuns, EnsStep, EnsBits, Slow, ManyRuns, MixRuns, PatientRuns

VARIABLE st
vars == st

O == INSTANCE ExecObs WITH n <- 0, limit <- 0, started <- {}, finished <- {}, returned <- FALSE

SameResult(x, y) == x = y
JudgeRun(a, r) ==
    /\ r.st = "ok"
    /\ ~r.v.stuck
    /\ O!IsBehaviour(r.v.events, a.n, a.limit)
    /\ r.v.slots = r.v.alone /\ Len(r.v.slots) = a.n
    /\ \A i \in 1..a.n : r.v.slots[i].alg = i
    /\ r.v.target
JudgeEns(a, r) ==
    /\ r.st = "ok"
    /\ Len(r.v.slots) = Len(r.v.alone) /\ Len(r.v.slots) > 0
    /\ r.v.slots = r.v.alone /\ r.v.slots2 = r.v.alone
    /\ r.v.target
Check(tag, a) == LET r == Call(tag, a) IN
    Report(tag, a, CASE tag = "exec.run" -> JudgeRun(a, r) [] tag \in {"exec.ens", "exec.mix"} -> JudgeEns(a, r))

(* Many algorithms: a random permutation as the preferred completion order.  *)
Many(b) == LET key == <<Seed, "many", b>>
               n == <<8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 70, 129>>[1 + R(key, "n", 12)]
           IN [t |-> "sched", n |-> n, limit |-> <<1, 2, 3, 7, 8, 9, 16, n - 1, n, n + 1, 64, 1000>>[1 + R(key, "l", 12)],
               order |-> SortSeq([k \in 1..n |-> k], LAMBDA x, y : <<R(key, <<"o", x>>, 1000000), x>>[1] < R(key, <<"o", y>>, 1000000)), rep |-> b]
Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ \E n \in 0..MaxN : \E l \in 1..(n + ExtraLimit) : \E rep \in 1..Repeats :
         st' = [t |-> "sched", n |-> n, limit |-> l, order |-> <<>>, rep |-> rep]
    \/ \E b \in 1..ManyRuns : st' = Many(b)
    \/ \E b \in 1..PatientRuns : st' = [t |-> "patient", b |-> b]
    \/ \E i \in 1..MixRuns : st' = [t |-> "mix", i |-> i]
    \/ \E i \in 1..EnsRuns : st' = [t |-> "ens", i |-> i]
(* With everything that may run running, which algorithm finishes next. *)
Next1 == st.t = "sched" /\ Len(st.order) < st.n /\
    \E w \in 1..IMin(st.n, st.limit + Len(st.order)) : w \notin Range(st.order) /\ st' = [st EXCEPT !.order = Append(@, w)]
Next == Root \/ Next1
Spec == Init /\ [][Next]_vars

Case(s) == LET key == <<Seed, s.n, s.limit, s.order, s.rep>> IN
    [n |-> s.n, limit |-> s.limit, order |-> s.order, x |-> Target(<<key, "x">>, 48),
     kinds |-> [i \in 1..s.n |-> <<"ok", "ok", "err", "invalid", "wrongend", "nil">>[1 + R(key, <<"k", i>>, 6)]],
     (* display names need not be unique *)
     names |-> [i \in 1..s.n |-> CASE R(key, "names", 3) = 0 -> i [] R(key, "names", 3) = 1 -> 1 [] OTHER -> 1 + R(key, <<"nm", i>>, 3)],
     delays |-> [i \in 1..s.n |-> IF R(key, <<"d", i>>, 3) = 0 THEN R(key, <<"e", i>>, 400) ELSE 0],
     (* the executor may have been used before, with another limit *)
     warm |-> IF R(key, "warm", 3) = 0 THEN 1 + R(key, "w", s.n + 3) ELSE 0,
     log |-> R(key, "log", 4) # 0, procs |-> 1 + R(key, "procs", 8), settle |-> IF R(key, "set", 8) = 0 THEN 10 * Slow ELSE Slow]
EnsCase(i) == LET key == <<Seed, "ens", i>> IN
    [n |-> Target(key, EnsBits), limit |-> <<1, 2, 3, 8, 16, 200>>[1 + R(key, "l", 6)], procs |-> <<1, 2, 4, 8>>[1 + R(key, "p", 4)],
     again |-> IF R(key, "again", 2) = 0 THEN 0 ELSE 1 + R(key, "ag", 3), lo |-> R(key, "lo", EnsStep), step |-> EnsStep, twice |-> i % 2 = 0]
(* Any configurations side by side: every kind of algorithm, alike or not. *)
LogList == SetToSeq(LogSeqs)
MixCase(i) ==
    LET key == <<Seed, "mix", i>>
        bits == <<16, 64, 128, 256, 600>>[1 + R(key, "bits", 5)]
        sq(j) == LogList[1 + R(key, <<"s", j>>, Len(LogList))]
        kind(j) == IF R(key, "one", 2) = 0 THEN R(key, "kind", 8) ELSE R(key, <<"kind", j>>, 8)
        cfg(j) == LET k == kind(j)  o == R(key, <<"o", j>>, 2) = 0 IN
            CASE k = 0 -> BinCfg(o) [] k = 1 -> RunsCfg(sq(j), o) [] k \in {2, 3} -> SeqCfg(sq(j), o)
              [] OTHER -> DictCfg(<<"fixed", "sliding", "run", "hybrid">>[k - 3], 1 + R(key, <<"K", j>>, 12), R(key, <<"T", j>>, 20), sq(j), o)
    IN [n |-> Target(key, bits), cfgs |-> [j \in 1..(2 + R(key, "m", 11)) |-> cfg(j)], again |-> R(key, "again", 4),
        limit |-> <<2, 3, 8, 16, 200>>[1 + R(key, "l", 5)], procs |-> <<2, 4, 8>>[1 + R(key, "p", 3)], twice |-> i % 3 = 0]
(* Algorithms that take seconds, or most of a minute: nothing gives up on them. *)
PatientCase(b) ==
    LET key == <<Seed, "patient", b>>
        n == IF b > 14 THEN 1 ELSE 1 + (b % 3)
        l == 1 + R(key, "l", 3)
        ms == IF b > 14 THEN 66000 ELSE IF b > 8 THEN <<11000, 16000, 31000>>[1 + (b % 3)] ELSE <<1200, 2600, 5300, 6200>>[1 + (b % 4)]
    IN [Case([n |-> n, limit |-> l, order |-> [k \in 1..n |-> n + 1 - k], rep |-> b]) EXCEPT !.settle = 50 * ms]
ImplInv == /\ st.t = "patient" => Check("exec.run", PatientCase(st.b))
           /\ (st.t = "sched" /\ Len(st.order) = st.n) => Check("exec.run", Case(st))
           /\ st.t = "ens" => Check("exec.ens", EnsCase(st.i))
           /\ st.t = "mix" => Check("exec.mix", MixCase(st.i))
=============================================================================
