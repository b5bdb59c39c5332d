-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* The implementation, seen from the specification.  Call(f, args) is the   *)
(* value the real Go code returns for the operation f on args, in an        *)
(* envelope [st |-> "ok", v |-> ...] or [st |-> "panic"/"hang"/"crash"/...].*)
(* TLC evaluates these operators with java/verif/ImplOps, which talks to a  *)
(* driver process built from /repo's working tree.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Call(f, args) == CHOOSE v : FALSE

(* Log the judgement of one call; its value is ok. *)
Report(tag, args, ok) == ok

(* Count how often cond held; its value is TRUE. *)
Tally(name, cond) == TRUE

TallyN(name, n) == TRUE

(* The recorded call to judge again, in a replay run. *)
ReplayCase(x) == CHOOSE v : FALSE

(* A JSON file of the run's scratch directory. *)
ReadJson(name) == CHOOSE v : FALSE

(* Pseudo-random functions of a key: a number below m, an n-bit natural. *)
Rand(key, m) == 0
RandBits(key, n) == <<>>
=============================================================================
