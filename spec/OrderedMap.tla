----------------------------- MODULE OrderedMap -----------------------------
(* An ordered map with string keys, as a sequence of entries [n, d, v]:      *)
(* name, documentation, value.                                               *)
EXTENDS Integers, Sequences

Pos(m, name) == LET S == {i \in 1..Len(m) : m[i].n = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Has(m, name) == Pos(m, name) # 0
GetOf(m, name) == m[Pos(m, name)].v
AddTo(m, e) == IF Has(m, e.n) THEN m ELSE Append(m, e)
SetIn(m, name, v) == IF Has(m, name) THEN [m EXCEPT ![Pos(m, name)].v = v] ELSE m
Distinct(m) == \A i, j \in 1..Len(m) : m[i].n = m[j].n => i = j

(* An operation is [k |-> "get"/"add"/"set", n, v, d]; its effect and result. *)
After(m, op) == CASE op.k = "get" -> m
                  [] op.k = "add" -> AddTo(m, [n |-> op.n, d |-> op.d, v |-> op.v])
                  [] op.k = "set" -> SetIn(m, op.n, op.v)
(* [ok, v]: v is the value of a successful get, else empty *)
ResultOf(m, op) == CASE op.k = "get" -> [ok |-> Has(m, op.n), v |-> IF Has(m, op.n) THEN GetOf(m, op.n) ELSE <<>>]
                     [] op.k = "add" -> [ok |-> ~Has(m, op.n), v |-> <<>>]
                     [] op.k = "set" -> [ok |-> Has(m, op.n), v |-> <<>>]
=============================================================================
