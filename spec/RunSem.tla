------------------------------- MODULE RunSem -------------------------------
(***************************************************************************)
(* Programs with very long runs of doublings, as runs <<i, j, n>>: operation  *)
(* (i, j), then n doublings each of the element just produced.  The meaning   *)
(* of instructions and scripts in this form, so that a shift by a hundred     *)
(* thousand is one step.                                                      *)
(***************************************************************************)
EXTENDS ScriptSem

Flip(i, j) == IF i >= j THEN <<i, j>> ELSE <<j, i>>
RS0 == [n |-> 0, rs |-> <<>>, names |-> <<>>, ok |-> TRUE]       \* n operations so far
PushOp(S, i, j) == LET o == Flip(i, j) IN
    IF ~(i \in 0..S.n /\ j \in 0..S.n) THEN [S EXCEPT !.ok = FALSE]
    ELSE IF i = j /\ i = S.n /\ S.n > 0 THEN [S EXCEPT !.n = @ + 1, !.rs[Len(S.rs)][3] = @ + 1]
    ELSE [S EXCEPT !.n = @ + 1, !.rs = Append(@, <<o[1], o[2], 0>>)]
PushDoubles(S, i, s) == LET T == PushOp(S, i, i) IN
    IF ~T.ok \/ s < 1 THEN [T EXCEPT !.ok = FALSE] ELSE [T EXCEPT !.n = @ + (s - 1), !.rs[Len(T.rs)][3] = @ + (s - 1)]

RunsOfIns(ins) == FoldLeft(LAMBDA S, e :
    LET T == CASE e.op = "add" -> PushOp(S, e.x, e.y) [] e.op = "dbl" -> PushOp(S, e.x, e.x) [] e.op = "shl" -> PushDoubles(S, e.x, e.s)
    IN [T EXCEPT !.ok = @ /\ e.out = T.n], RS0, ins)

RECURSIVE RunsOfExpr(_, _)
RunsOfExpr(t, S) ==
    CASE t[1] = "op" -> [S |-> S, r |-> ToInt(t[2])]
      [] t[1] = "id" -> LET k == NameIdx(S.names, t[2]) IN IF k = 0 THEN [S |-> [S EXCEPT !.ok = FALSE], r |-> 0] ELSE [S |-> S, r |-> S.names[k][2]]
      [] t[1] = "add" -> LET a == RunsOfExpr(t[2], S)  b == RunsOfExpr(t[3], a.S)  T == PushOp(b.S, a.r, b.r) IN [S |-> T, r |-> T.n]
      [] t[1] = "dbl" -> LET a == RunsOfExpr(t[2], S)  T == PushOp(a.S, a.r, a.r) IN [S |-> T, r |-> T.n]
      [] t[1] = "shl" -> LET a == RunsOfExpr(t[2], S)  T == PushDoubles(a.S, a.r, ToInt(t[3])) IN [S |-> T, r |-> T.n]
RunsOfScript(ss) == FoldLeft(LAMBDA S, st :
    LET e == RunsOfExpr(st.e, S) IN
    IF NameIdx(S.names, st.n) # 0 THEN [e.S EXCEPT !.ok = FALSE] ELSE [e.S EXCEPT !.names = Append(@, <<st.n, e.r>>)], RS0, ss)

(* the value of element i *)
RECURSIVE RunVal(_, _)
RunVal(rs, i) ==
    IF i = 0 THEN BOne
    ELSE LET first(k) == 1 + FoldLeft(LAMBDA a, r : a + 1 + r[3], 0, SubSeq(rs, 1, k - 1))
             k == CHOOSE m \in 1..Len(rs) : first(m) <= i /\ i <= first(m) + rs[m][3]
         IN BShl(BAdd(RunVal(rs, rs[k][1]), RunVal(rs, rs[k][2])), i - first(k))
RunEndVal(S) == RunVal(S.rs, S.n)
=============================================================================
