------------------------------ MODULE ScriptSem ------------------------------
(***************************************************************************)
(* Evaluation of scripts.  The state is                                      *)
(*   c      the chain so far          p      the unrolled operations          *)
(*   names  name -> element reference (a BigNat index)                        *)
(*   ins    the instructions: [op, x, y, s, out], indices 0-based             *)
(*   ok     FALSE after an undefined name, a redefinition or an operation on  *)
(*          an element that has not been computed                             *)
(*   loose  TRUE after a construct the properties leave open: a shift by      *)
(*          zero, or a mention of an element not computed at that moment      *)
(* Statements run in order, operands left to right.                           *)
(***************************************************************************)
EXTENDS Grammar, AddChain, SequencesExt

Sem0 == [c |-> <<BOne>>, p |-> <<>>, names |-> <<>>, ins |-> <<>>, ok |-> TRUE, loose |-> FALSE]

ToInt(x) == IF x = BZero THEN 0 ELSE IF Len(x) = 1 THEN x[1] ELSE x[1] + 32768 * x[2]
KnownRef(x, c) == BLt(x, BFromInt(Len(c)))
NameIdx(names, n) == SelectInSeq(names, LAMBDA e : e[1] = n)

AppendOp(S, i, j) == [S EXCEPT !.c = Append(@, BAdd(S.c[i+1], S.c[j+1])), !.p = Append(@, <<i, j>>)]
RECURSIVE AppendDoubles(_, _, _)
AppendDoubles(S, i, s) == IF s = 0 THEN S ELSE AppendDoubles(AppendOp(S, i, i), Len(S.p) + 1, s - 1)

Ins(op, x, y, s, out) == [op |-> op, x |-> x, y |-> y, s |-> s, out |-> out]
Rejected(S) == [S EXCEPT !.ok = FALSE]

(* result: [S, r] with r the reference of the element *)
RECURSIVE EvalExpr(_, _)
EvalExpr(t, S) ==
    IF ~S.ok THEN [S |-> S, r |-> BZero]
    ELSE CASE t[1] = "op" -> [S |-> IF KnownRef(t[2], S.c) THEN S ELSE [S EXCEPT !.loose = TRUE], r |-> t[2]]
           [] t[1] = "id" -> LET k == NameIdx(S.names, t[2]) IN
                             IF k = 0 THEN [S |-> Rejected(S), r |-> BZero] ELSE [S |-> S, r |-> S.names[k][2]]
           [] t[1] = "add" ->
                LET a == EvalExpr(t[2], S)
                    b == EvalExpr(t[3], a.S)
                IN IF ~b.S.ok THEN b
                   ELSE IF ~KnownRef(a.r, b.S.c) \/ ~KnownRef(b.r, b.S.c) THEN [S |-> Rejected(b.S), r |-> BZero]
                   ELSE LET n == Len(b.S.c)
                            T == AppendOp(b.S, ToInt(a.r), ToInt(b.r))
                        IN [S |-> [T EXCEPT !.ins = Append(@, Ins("add", ToInt(a.r), ToInt(b.r), 0, n))], r |-> BFromInt(n)]
           [] t[1] = "dbl" ->
                LET a == EvalExpr(t[2], S)
                IN IF ~a.S.ok THEN a
                   ELSE IF ~KnownRef(a.r, a.S.c) THEN [S |-> Rejected(a.S), r |-> BZero]
                   ELSE LET n == Len(a.S.c)
                            T == AppendOp(a.S, ToInt(a.r), ToInt(a.r))
                        IN [S |-> [T EXCEPT !.ins = Append(@, Ins("dbl", ToInt(a.r), ToInt(a.r), 1, n))], r |-> BFromInt(n)]
           [] t[1] = "shl" ->
                LET a == EvalExpr(t[2], S)
                IN IF ~a.S.ok THEN a
                   ELSE IF t[3] = BZero THEN [S |-> [a.S EXCEPT !.loose = TRUE], r |-> a.r]
                   ELSE IF ~KnownRef(a.r, a.S.c) THEN [S |-> Rejected(a.S), r |-> BZero]
                   ELSE LET s == ToInt(t[3])
                            n == Len(a.S.c) + s - 1
                            T == AppendDoubles(a.S, ToInt(a.r), s)
                        IN [S |-> [T EXCEPT !.ins = Append(@, Ins("shl", ToInt(a.r), ToInt(a.r), s, n))], r |-> BFromInt(n)]
EvalStmt(S, st) ==
    LET e == EvalExpr(st.e, S) IN
    IF ~e.S.ok THEN e.S
    ELSE IF NameIdx(e.S.names, st.n) # 0 THEN Rejected(e.S)
    ELSE [e.S EXCEPT !.names = Append(@, <<st.n, e.r>>)]
EvalScript(ss) == FoldLeft(EvalStmt, Sem0, ss)

(* Only scripts whose shifts are bounded are evaluated. *)
RECURSIVE ShiftTotal(_)
ShiftTotal(t) ==
    CASE t[1] = "op" -> 0
      [] t[1] = "id" -> 0
      [] t[1] = "add" -> ShiftTotal(t[2]) + ShiftTotal(t[3])
      [] t[1] = "dbl" -> ShiftTotal(t[2])
      [] t[1] = "shl" -> ShiftTotal(t[2]) + (IF Len(t[3]) > 1 THEN 100000 ELSE IF t[3] = BZero THEN 0 ELSE t[3][1])
Bounded(ss, cap) == FoldLeft(LAMBDA a, st : a + ShiftTotal(st.e), 0, ss) <= cap

(* elements some instruction outputs (and element 0) *)
Outputs(ins) == {0} \cup {ins[k].out : k \in 1..Len(ins)}
Dangling(ins) == \E k \in 1..Len(ins) : {ins[k].x, ins[k].y} \ ({0} \cup {ins[j].out : j \in 1..(k-1)}) # {}
SameOpsUO(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : p[k] = q[k] \/ p[k] = <<q[k][2], q[k][1]>>
=============================================================================
