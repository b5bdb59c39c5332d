------------------------------ MODULE ExecObs ------------------------------
(* What can be seen of an executor from outside: which algorithms have       *)
(* started, which have finished, and whether it has returned.                *)
EXTENDS Integers, FiniteSets, Sequences

VARIABLES n, limit, started, finished, returned
ovars == <<n, limit, started, finished, returned>>

(* the actions, on a record s = [started, finished, returned] *)
CanStart(s, N, L, w) == ~s.returned /\ w \in 1..N /\ w \notin s.started /\ Cardinality(s.started \ s.finished) < L
CanFinish(s, w) == w \in s.started \ s.finished
CanReturn(s, N) == ~s.returned /\ s.finished = 1..N

S == [started |-> started, finished |-> finished, returned |-> returned]
ObsInit == started = {} /\ finished = {} /\ returned = FALSE
OStart(w) == CanStart(S, n, limit, w) /\ started' = started \cup {w} /\ UNCHANGED <<n, limit, finished, returned>>
OFinish(w) == CanFinish(S, w) /\ finished' = finished \cup {w} /\ UNCHANGED <<n, limit, started, returned>>
OReturn == CanReturn(S, n) /\ returned' = TRUE /\ UNCHANGED <<n, limit, started, finished>>
ObsNext == OReturn \/ \E w \in 1..n : OStart(w) \/ OFinish(w)
ObsSpec == ObsInit /\ [][ObsNext]_ovars

(* An event list <<kind, w>>, kind in {"s", "e", "r"}, is a behaviour. *)
RECURSIVE Follows(_, _, _, _, _)
Follows(ev, k, s, N, L) ==
    IF k > Len(ev) THEN s.returned
    ELSE LET e == ev[k]  w == e[2] IN
         CASE e[1] = "s" -> CanStart(s, N, L, w) /\ Follows(ev, k+1, [s EXCEPT !.started = @ \cup {w}], N, L)
           [] e[1] = "e" -> CanFinish(s, w) /\ Follows(ev, k+1, [s EXCEPT !.finished = @ \cup {w}], N, L)
           [] e[1] = "r" -> CanReturn(s, N) /\ Follows(ev, k+1, [s EXCEPT !.returned = TRUE], N, L)
           [] OTHER -> FALSE
IsBehaviour(ev, N, L) == Follows(ev, 1, [started |-> {}, finished |-> {}, returned |-> FALSE], N, L)
=============================================================================
