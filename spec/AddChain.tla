------------------------------ MODULE AddChain ------------------------------
(* Addition chains over BigNat values.                                      *)
EXTENDS BigNat, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}
NoRepeat(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

(* The definition.  (TLC uses an equivalent Java evaluation for speed;      *)
(* MC_Chain compares it with IsAddChainDef on every small sequence.)        *)
IsAddChainDef(c) ==
    /\ Len(c) > 0
    /\ c[1] = BOne
    /\ NoRepeat(c)
    /\ \A k \in 2..Len(c) :
         /\ c[k] # BZero
         /\ \E i \in 1..(k-1) : \E j \in i..(k-1) : c[k] = BAdd(c[i], c[j])
IsAddChain(c) == IsAddChainDef(c)

(* p is a list of 0-based index pairs that computes the chain c. *)
Computes(p, c) ==
    /\ Len(p) = Len(c) - 1
    /\ c[1] = BOne
    /\ \A k \in 1..Len(p) :
         /\ p[k][1] \in 0..(k-1) /\ p[k][2] \in 0..(k-1)
         /\ c[k+1] = BAdd(c[p[k][1]+1], c[p[k][2]+1])

(* Value sequence of a program of 0-based pairs. *)
RECURSIVE EvalFrom(_, _, _)
EvalFrom(p, k, c) == IF k > Len(p) THEN c
    ELSE EvalFrom(p, k+1, Append(c, BAdd(c[p[k][1]+1], c[p[k][2]+1])))
EvalProg(p) == EvalFrom(p, 1, <<BOne>>)

WellFormedProg(p) == \A k \in 1..Len(p) : p[k][1] \in 0..(k-1) /\ p[k][2] \in 0..(k-1)
=============================================================================
