------------------------------ MODULE Executor ------------------------------
(***************************************************************************)
(* The parallel executor of alg/exec: a main process that takes a token of   *)
(* the semaphore before it spawns each worker and, at the end, takes all     *)
(* tokens; workers log, run their algorithm, store the result, log and give  *)
(* the token back.  n algorithms, limit tokens.                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS MaxN, ExtraLimit

VARIABLES n, limit,
          mpc,      \* "acquire", "spawn", "wait", "done"
          i,        \* next algorithm to spawn
          waited,   \* tokens re-acquired by main at the end
          tokens,   \* tokens in the channel (held)
          wpc,      \* worker state: "none", "spawned", "running", "computed", "stored", "exited"
          rs        \* result slots: 0 = unset, j = result of algorithm j
vars == <<n, limit, mpc, i, waited, tokens, wpc, rs>>

W == 1..MaxN
Init == /\ n \in 0..MaxN
        /\ limit \in 1..(n + ExtraLimit)
        /\ mpc = "acquire" /\ i = 1 /\ waited = 0 /\ tokens = 0
        /\ wpc = [w \in W |-> "none"] /\ rs = [w \in W |-> 0]

Acquire == mpc = "acquire" /\ i <= n /\ tokens < limit /\ tokens' = tokens + 1 /\ mpc' = "spawn"
           /\ UNCHANGED <<n, limit, i, waited, wpc, rs>>
Spawn == mpc = "spawn" /\ wpc' = [wpc EXCEPT ![i] = "spawned"] /\ i' = i + 1 /\ mpc' = "acquire"
         /\ UNCHANGED <<n, limit, waited, tokens, rs>>
EndLoop == mpc = "acquire" /\ i > n /\ mpc' = "wait" /\ UNCHANGED <<n, limit, i, waited, tokens, wpc, rs>>
Wait == mpc = "wait" /\ waited < limit /\ tokens < limit /\ tokens' = tokens + 1 /\ waited' = waited + 1
        /\ UNCHANGED <<n, limit, mpc, i, wpc, rs>>
Return == mpc = "wait" /\ waited = limit /\ mpc' = "done" /\ UNCHANGED <<n, limit, i, waited, tokens, wpc, rs>>

Move(w, from, to) == wpc[w] = from /\ wpc' = [wpc EXCEPT ![w] = to]
Start(w) == Move(w, "spawned", "running") /\ UNCHANGED <<n, limit, mpc, i, waited, tokens, rs>>
Finish(w) == Move(w, "running", "computed") /\ UNCHANGED <<n, limit, mpc, i, waited, tokens, rs>>
Store(w) == Move(w, "computed", "stored") /\ rs' = [rs EXCEPT ![w] = w] /\ UNCHANGED <<n, limit, mpc, i, waited, tokens>>
Release(w) == Move(w, "stored", "exited") /\ tokens' = tokens - 1 /\ UNCHANGED <<n, limit, mpc, i, waited, rs>>
Worker(w) == Start(w) \/ Finish(w) \/ Store(w) \/ Release(w)
Main == Acquire \/ Spawn \/ EndLoop \/ Wait \/ Return
Next == Main \/ \E w \in W : Worker(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A w \in W : WF_vars(Worker(w))

(* ---- what the property says ------------------------------------------------ *)
Running == {w \in W : wpc[w] = "running"}
LimitInv == Cardinality({w \in W : wpc[w] \in {"running", "computed", "stored"}}) <= limit
ReturnInv == mpc = "done" => \A w \in 1..n : wpc[w] = "exited" /\ rs[w] = w
SlotInv == \A w \in W : rs[w] \in {0, w} /\ (rs[w] = w <=> wpc[w] \in {"stored", "exited"})
TokenInv == /\ tokens \in 0..limit
            /\ tokens = waited + (IF mpc = "spawn" THEN 1 ELSE 0) + Cardinality({w \in W : wpc[w] \notin {"none", "exited"}})
Terminates == <>(mpc = "done")
(* no stored result is ever overwritten; nothing runs after the return *)
StoreOnce == [][\A w \in W : rs[w] # 0 => rs'[w] = rs[w]]_vars
QuietAfter == [][mpc = "done" => UNCHANGED <<wpc, rs>>]_vars

(* The executor refines the observable one. *)
Obs == INSTANCE ExecObs WITH started <- {w \in W : wpc[w] \notin {"none", "spawned"}},
                             finished <- {w \in W : wpc[w] \in {"computed", "stored", "exited"}},
                             returned <- (mpc = "done")
Refines == Obs!ObsSpec
=============================================================================
