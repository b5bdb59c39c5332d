-------------------------------- MODULE Algs --------------------------------
(* Configurations of the search algorithms, their documented input sizes,   *)
(* and what a result must be.                                                *)
EXTENDS AddChain, Impl, SequencesExt

Strategies == {"binary", "co_binary", "dichotomic", "sqrt", "total", "dyadic", "fermat"}
CF(s) == <<"cf", s>>
Heur(hs) == <<"h">> \o hs
(* use_first lists without repetition; those ending in a total heuristic      *)
(* (delta largest and approximation always have a suggestion) are total.      *)
HNames == {"halving", "delta", "approx"}
HLists == {<<a>> : a \in HNames} \cup {p \in HNames \X HNames : p[1] # p[2]}
     \cup {p \in HNames \X HNames \X HNames : p[1] # p[2] /\ p[2] # p[3] /\ p[1] # p[3]}
TotalH(hs) == hs[Len(hs)] # "halving"
TotalSeqs == {CF(s) : s \in Strategies} \cup {Heur(hs) : hs \in {l \in HLists : TotalH(l)}}
PartialSeqs == {Heur(<<>>), Heur(<<"halving">>)}

(* Largest number of bits for which a configuration is meant: strategies that *)
(* try several values are not for large inputs; heuristics that do not start  *)
(* with halving walk down linearly.                                            *)
SeqBits(s) == IF s[1] = "cf" THEN (CASE s[2] = "total" -> 5 [] s[2] \in {"dyadic", "fermat"} -> 9 [] OTHER -> 1024)
              ELSE IF Len(s) > 1 /\ s[2] = "halving" THEN 1024 ELSE 8
LogSeqs == {s \in TotalSeqs : SeqBits(s) = 1024}

IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b
RECURSIVE IBits(_)
IBits(n) == IF n = 0 THEN 0 ELSE 1 + IBits(n \div 2)

(* Bits of the integers a configuration hands to its sequence algorithm for a *)
(* target of b bits.                                                           *)
DictBits(c, b) ==
    CASE c.k = "dict" -> (CASE c.m \in {"fixed", "sliding"} -> IMin(c.K, b)
                            [] c.m = "run" -> IF c.T = 0 THEN b ELSE IMin(c.T, b)
                            [] c.m = "hybrid" -> IF c.T = 0 THEN b ELSE IMin(IMax(c.K, c.T), b))
      [] c.k = "runs" -> IBits(b)
      [] c.k = "seq" -> b
      [] c.k = "bin" -> 0
InRange(c, b) == c.k = "bin" \/ DictBits(c, b) <= SeqBits(c.seq)

Methods == {"fixed", "sliding", "run", "hybrid"}
DictCfg(m, K, T, s, o) == [k |-> "dict", m |-> m, K |-> K, T |-> T, seq |-> s, opt |-> o]
RunsCfg(s, o) == [k |-> "runs", seq |-> s, opt |-> o]
SeqCfg(s, o) == [k |-> "seq", seq |-> s, opt |-> o]
BinCfg(o) == [k |-> "bin", seq |-> <<>>, opt |-> o]

(* A result for target n: linear check against the operation list. *)
GoodResult(x, n) ==
    /\ x.ok /\ x.sametarget
    /\ Len(x.chain) > 0 /\ x.chain[1] = BOne /\ x.chain[Len(x.chain)] = n
    /\ Computes(x.prog, x.chain)
    /\ Cardinality(Range(x.chain)) = Len(x.chain)
=============================================================================
