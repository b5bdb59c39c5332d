-------------------------------- MODULE IRSem --------------------------------
(***************************************************************************)
(* Instruction programs: sequences of [op, x, y, s, out] over element         *)
(* indices, their unrolling, the decompiler and the script builder as          *)
(* designs, register machines, and liveness.                                   *)
(***************************************************************************)
EXTENDS ScriptSem, TLC

(* ---------- unrolling ---------- *)
WellFormed(ins) == \A k \in 1..Len(ins) : {ins[k].x, ins[k].y} \subseteq ({0} \cup {ins[j].out : j \in 1..(k-1)})
Unroll(ins) ==
    FoldLeft(LAMBDA u, e :
        LET n == Len(u.p)
            q == CASE e.op = "add" -> Append(u.p, <<e.x, e.y>>)
                   [] e.op = "dbl" -> Append(u.p, <<e.x, e.x>>)
                   [] e.op = "shl" -> u.p \o [k \in 1..e.s |-> IF k = 1 THEN <<e.x, e.x>> ELSE <<n + k - 1, n + k - 1>>]
        IN [p |-> q, ok |-> u.ok /\ Len(q) = e.out /\ e.x \in 0..n /\ e.y \in 0..n],
      [p |-> <<>>, ok |-> TRUE], ins)

(* ---------- the decompiler: doublings whose only reader is the next doubling
   of the run are folded ---------- *)
ReadsOf(p, i) == Cardinality({k \in 1..Len(p) : i \in {p[k][1], p[k][2]}})
RECURSIVE RunEnd(_, _)
RunEnd(p, j) == IF j < Len(p) /\ ReadsOf(p, j) = 1 /\ p[j+1] = <<j, j>> THEN RunEnd(p, j+1) ELSE j
RECURSIVE DecompileFrom(_, _)
DecompileFrom(p, i) ==        \* i operations are consumed
    IF i = Len(p) THEN <<>>
    ELSE IF p[i+1][1] # p[i+1][2] THEN <<Ins("add", p[i+1][1], p[i+1][2], 0, i+1)>> \o DecompileFrom(p, i+1)
    ELSE LET j == RunEnd(p, i+1) IN
         <<Ins(IF j = i+1 THEN "dbl" ELSE "shl", p[i+1][1], p[i+1][1], j - i, j)>> \o DecompileFrom(p, j)
DecompileDesign(p) == DecompileFrom(p, 0)

(* ---------- the builder ---------- *)
BinText(x) == [i \in 1..BBitLen(x) |-> 48 + BBit(x, BBitLen(x) - i)]
AutoName(c, idx) ==
    LET v == c[idx+1] IN
    IF BBitLen(v) <= 8 THEN <<95>> \o BinText(v)
    ELSE IF IsOnes(v) THEN <<120>> \o DecText(BFromInt(BBitLen(v))) ELSE <<>>
InsReads(ins, i) == FoldLeft(LAMBDA n, e : n + (IF e.x = i THEN 1 ELSE 0) + (IF e.op = "add" /\ e.y = i THEN 1 ELSE 0), 0, ins)
IsOp(t) == t[1] \in {"add", "dbl", "shl"}
BuildDesign(ins) ==
    LET c == EvalProg(Unroll(ins).p)
        n == Len(ins)
        f == FoldLeft(LAMBDA b, k :
               LET e == ins[k]
                   ref(i) == LET m == SelectInSeq(b.expr, LAMBDA z : z[1] = i) IN IF m = 0 THEN <<"op", BFromInt(i)>> ELSE b.expr[m][2]
                   t == CASE e.op = "add" -> IF IsOp(ref(e.y)) THEN <<"add", ref(e.y), ref(e.x)>> ELSE <<"add", ref(e.x), ref(e.y)>>
                          [] e.op = "dbl" -> <<"dbl", ref(e.x)>>
                          [] e.op = "shl" -> <<"shl", ref(e.x), BFromInt(e.s)>>
                   nm == AutoName(c, e.out)
                   inline == nm = <<>> /\ k < n /\ InsReads(ins, e.out) = 1 /\ e.out \in {ins[k+1].x, ins[k+1].y} /\ b.ops + 1 < 5
                   full == IF nm = <<>> THEN <<105>> \o DecText(BFromInt(e.out)) ELSE nm
               IN IF inline THEN [expr |-> Append(b.expr, <<e.out, t>>), ss |-> b.ss, ops |-> b.ops + 1]
                  ELSE [expr |-> Append(b.expr, <<e.out, <<"id", full>>>>), ss |-> Append(b.ss, [n |-> IF k = n THEN <<>> ELSE full, e |-> t]), ops |-> 0],
             [expr |-> <<>>, ss |-> <<>>, ops |-> 0], [k \in 1..n |-> k])
    IN IF n = 0 THEN <<[n |-> <<>>, e |-> <<"op", BZero>>]>> ELSE f.ss

(* ---------- register machines ---------- *)
(* code: sequence of [op, z, x, y, s] over register names; regs: a function.   *)
(* cell(name) folds aliased names.  Undefined registers make the run fail.     *)
Get(regs, r) == LET k == SelectInSeq(regs, LAMBDA e : e[1] = r) IN IF k = 0 THEN BZero ELSE regs[k][2]
Put(regs, r, v) == LET k == SelectInSeq(regs, LAMBDA e : e[1] = r) IN IF k = 0 THEN Append(regs, <<r, v>>) ELSE [regs EXCEPT ![k] = <<r, v>>]
RunCode(code, regs, cell(_)) ==
    FoldLeft(LAMBDA m, e :
        LET x == Get(m.regs, cell(e.x))
            y == IF e.op = "add" THEN Get(m.regs, cell(e.y)) ELSE BOne
            v == CASE e.op = "add" -> BAdd(x, y)
                   [] e.op = "dbl" -> BAdd(x, x)
                   [] e.op = "shl" -> BShl(x, e.s)
        IN IF ~m.ok \/ x = BZero \/ y = BZero THEN [regs |-> m.regs, ok |-> FALSE]
           ELSE [regs |-> Put(m.regs, cell(e.z), v), ok |-> TRUE],
      [regs |-> regs, ok |-> TRUE], code)

(* ---------- liveness ---------- *)
(* element v is live after instruction k (0 = before the first) when it exists  *)
(* there and is read later or is the result                                      *)
LiveAfter(ins, k, v) ==
    /\ v = 0 \/ \E j \in 1..k : ins[j].out = v
    /\ (k = Len(ins) /\ v = ins[k].out) \/ v = ins[Len(ins)].out \/ \E j \in (k+1)..Len(ins) : v \in {ins[j].x, ins[j].y}
Values(ins) == {0} \cup {ins[j].out : j \in 1..Len(ins)}
LiveCount(ins, k) == Cardinality({v \in Values(ins) : LiveAfter(ins, k, v)})
PeakLiveDef(ins) == LET S == {LiveCount(ins, k) : k \in 0..Len(ins)} IN CHOOSE m \in S : \A x \in S : x <= m
(* the same from definition and last-use points *)
PeakLive(ins) ==
    LET n == Len(ins)
        V == Values(ins)
        def == TLCEval([v \in V |-> IF v = 0 THEN 0 ELSE CHOOSE j \in 1..n : ins[j].out = v])
        use == TLCEval([v \in V |-> IF v = ins[n].out THEN n + 1
                                     ELSE FoldLeft(LAMBDA m, j : IF ins[j].x = v \/ ins[j].y = v THEN j ELSE m, 0, [j \in 1..n |-> j])])
        live == TLCEval([k \in 0..n |-> Cardinality({v \in V : def[v] <= k /\ use[v] > k})])
    IN FoldLeft(LAMBDA m, k : IF live[k] > m THEN live[k] ELSE m, 0, [k \in 1..(n+1) |-> k - 1])
(* every computed value but the last is read later *)
NoDead(ins) == \A j \in 1..(Len(ins)-1) : \E k \in (j+1)..Len(ins) : ins[j].out \in {ins[k].x, ins[k].y}

(* ---------- the allocator as a design: backwards, a variable is freed when   *)
(* its value is written and taken when a value is read; a free one, most        *)
(* recently freed first, before a new one ---------- *)
VarOf(a, v) == LET k == SelectInSeq(a.m, LAMBDA e : e[1] = v) IN IF k = 0 THEN 0 - 1 ELSE a.m[k][2]
Take(a, v) ==
    IF VarOf(a, v) >= 0 THEN a
    ELSE IF a.free = <<>> THEN [m |-> Append(a.m, <<v, a.n>>), free |-> <<>>, n |-> a.n + 1]
    ELSE [m |-> Append(a.m, <<v, a.free[Len(a.free)]>>), free |-> SubSeq(a.free, 1, Len(a.free) - 1), n |-> a.n]
AllocVars(ins) ==
    FoldLeft(LAMBDA a, k :
        LET e == ins[Len(ins) + 1 - k]
            b == Take(a, e.out)
            c == [b EXCEPT !.free = Append(@, VarOf(b, e.out))]
            d == Take(c, e.x)
        IN IF e.op = "add" THEN Take(d, e.y) ELSE d,
      [m |-> <<>>, free |-> <<>>, n |-> 0], [k \in 1..Len(ins) |-> k])
LastInputRead(ins) == LET S == {0} \cup {ins[k].out : k \in {j \in 1..Len(ins) : ins[j].x = 0 \/ (ins[j].op = "add" /\ ins[j].y = 0)}}
                      IN CHOOSE m \in S : \A x \in S : x <= m
(* storage of element v: "in", "out", or the variable number *)
Storage(ins) ==
    LET a == AllocVars(ins)
        outv == VarOf(a, ins[Len(ins)].out)
        lir == LastInputRead(ins)
    IN [v \in Values(ins) |-> IF v = 0 THEN 0 - 1 ELSE IF VarOf(a, v) = outv /\ v >= lir THEN 0 - 2 ELSE VarOf(a, v)]
DesignTemps(ins) == LET s == Storage(ins) IN Cardinality({s[v] : v \in Values(ins)} \ {0 - 1, 0 - 2})
=============================================================================
