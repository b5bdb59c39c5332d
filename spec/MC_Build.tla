------------------------------ MODULE MC_Build ------------------------------
(***************************************************************************)
(* C04 and C16.  States: duplicate-free programs grown one operation at a    *)
(* time, random long programs in several styles, programs found by the        *)
(* search algorithms.  The real code turns each into instructions, a script    *)
(* and a text, and loads the text again; every stage is judged, the text also  *)
(* by the grammar and the evaluation rules.                                     *)
(***************************************************************************)
EXTENDS IRSem, RunSem, ProgGen, Targets, TLC

CONSTANTS Seed, ProgLen, OrderLen, Rounds, PerRound, MaxOps, SearchRuns, SearchBits, BigRuns, LongShifts, RebuildRuns

VARIABLE st
vars == st

JudgeRoundtrip(p, r) ==
    r.st = "ok" /\ r.v.ok /\
    LET v == r.v
        c == EvalProg(p)
        u == Unroll(v.ins)
        g == ParseScript(v.text)
        e == EvalScript(g.ss)
    IN /\ u.ok /\ SameOpsUO(u.p, p)             \* the instructions expand to the operations
       /\ SameOpsUO(v.iops, p)
       /\ WellFormed(v.ins)                      \* and read only what instructions produce
       /\ v.lok /\ v.chain = c /\ SameOpsUO(v.ops, p)
       /\ g.ok /\ e.ok /\ ~e.loose /\ e.c = c /\ SameOpsUO(e.p, p)
       /\ v.string /\ v.kept

IsName(n) == n # <<>> /\ n[1] \in Letters /\ \A i \in 1..Len(n) : n[i] \in Letters \cup Digits
Tail_(n) == SubSeq(n, 2, Len(n))
Decimal(n) == LET t == Tail_(n) IN t # <<>> /\ Len(t) < 8 /\ (\A i \in 1..Len(t) : t[i] \in Digits) 
Faithful(n, ref, c) ==
    LET t == Tail_(n) IN
    CASE n[1] = 95 -> t # <<>> /\ (\A i \in 1..Len(t) : t[i] \in {48, 49}) /\ Num(t, 1, Len(t) + 1, 2, BZero) = c[ref+1]
      [] n[1] = 120 -> Decimal(n) /\ LET k == ToInt(Num(t, 1, Len(t) + 1, 10, BZero)) IN k = BBitLen(c[ref+1]) /\ IsOnes(c[ref+1])
      [] n[1] = 105 -> Decimal(n) /\ Num(t, 1, Len(t) + 1, 10, BZero) = BFromInt(ref)
      [] OTHER -> FALSE
JudgeNames(p, r) ==
    r.st = "ok" /\ r.v.ok /\
    LET ss == r.v.tree
        n == Len(ss)
        e == EvalScript(ss)
    IN /\ n >= 1
       /\ ss[n].n = <<>>
       /\ \A k \in 1..(n-1) : IsName(ss[k].n)
       /\ NoRepeat([k \in 1..n |-> ss[k].n])
       /\ e.ok => \A k \in 1..(n-1) : KnownRef(e.names[k][2], e.c) /\ Faithful(ss[k].n, ToInt(e.names[k][2]), e.c)
       /\ Tally("cov:names", n > 1)
       /\ LET form(ch) == \E k \in 1..(n-1) : ss[k].n[1] = ch IN
          Tally("cov:byte", form(95)) /\ Tally("cov:ones", form(120)) /\ Tally("cov:index", form(105))
       /\ LET q == ParseScript(r.v.text) IN q.ok /\ q.ss = ss       \* the printed script has the same names

(* programs with runs of doublings beyond two bytes *)
JudgeLong(a, r) ==
    r.st = "ok" /\ r.v.ok /\ r.v.lok /\
    LET want == FoldLeft(LAMBDA n, o : n + 1 + o[3], 0, a)
        i == RunsOfIns(r.v.ins)
        g == ParseScript(r.v.text)
        e == RunsOfScript(g.ss)
    IN /\ i.ok /\ i.rs = a
       /\ g.ok /\ e.ok /\ e.rs = a
       /\ r.v.runs = a /\ r.v.n = want + 1 /\ r.v.end = RunVal(a, want)
HasShift(v) == \E k \in 1..Len(v.ins) : v.ins[k].op = "shl"
RECURSIVE Ops(_)
Ops(t) == CASE t[1] \in {"op", "id"} -> 0 [] t[1] = "add" -> 1 + Ops(t[2]) + Ops(t[3]) [] OTHER -> 1 + Ops(t[2])
(* A script is loaded and built again (fmt -b): its instructions carry the names *)
(* their writer chose, some of which look like generated ones.  The script built  *)
(* has its own names told apart, and loads to the same chain; the names that the   *)
(* builder gave say what the value is.                                              *)
RebuildOf(a) == LET g == ParseScript(a) IN [g |-> g, e |-> EvalScript(g.ss)]
Aliased(e) == ~NoRepeat([k \in 1..Len(e.names) |-> e.names[k][2]])
JudgeRebuild(a, r) ==
    LET q == RebuildOf(a) IN
    (q.g.ok /\ q.e.ok /\ ~q.e.loose /\ NoRepeat(q.e.c)) =>
      /\ r.st = "ok" /\ r.v.lok
      /\ WellFormed(r.v.ins) =>
           /\ r.v.ok \/ Aliased(q.e)
           /\ r.v.ok => r.v.back /\ r.v.chain = q.e.c /\ SameOpsUO(r.v.ops, q.e.p)
                        /\ LET w == ParseScript(r.v.text) IN w.ok /\ w.ss = r.v.tree
JudgeRenames(a, r) ==
    LET q == RebuildOf(a) IN
    (q.g.ok /\ q.e.ok /\ ~q.e.loose /\ NoRepeat(q.e.c)) =>
      /\ r.st = "ok" /\ r.v.lok
      /\ (WellFormed(r.v.ins) /\ r.v.ok) =>
           LET ss == r.v.tree
               n == Len(ss)
               e == EvalScript(ss)
               given == {q.g.ss[k].n : k \in 1..Len(q.g.ss)}
           IN /\ n >= 1 /\ ss[n].n = <<>>
              /\ \A k \in 1..(n-1) : IsName(ss[k].n)
              /\ NoRepeat([k \in 1..n |-> ss[k].n])
              /\ e.ok
              /\ \A k \in 1..(n-1) : (ss[k].n \in given \/ ss[k].n[Len(ss[k].n)] = 95 \/ Faithful(ss[k].n, ToInt(e.names[k][2]), e.c))
              /\ Tally("cov:kept-name", \E k \in 1..(n-1) : ss[k].n \in given)
              /\ Tally("cov:misleading-name", \E k \in 1..(n-1) : ss[k].n \in given /\ ss[k].n[1] \in {95, 105, 120} /\ ~Faithful(ss[k].n, ToInt(e.names[k][2]), e.c))
(* saved to a file, whatever the file held before, and loaded from it *)
JudgeSaved(a, r) ==
    r.st = "ok" /\ r.v.ok /\
    LET g == ParseScript(r.v.text)
        e == EvalScript(g.ss)
        c == EvalProg(a.ops)
    IN /\ g.ok /\ e.ok /\ e.c = c /\ SameOpsUO(e.p, a.ops)
       /\ r.v.lok /\ r.v.chain = c /\ SameOpsUO(r.v.ops, a.ops)
SavedCase(b) ==
    LET key == <<Seed, "saved", b>> IN
    [ops |-> IF b = 1 THEN <<>> ELSE RandProg(key, 1 + PR(key, "n", MaxOps), PR(key, "style", 6)), times |-> 1 + PR(key, "times", 2),
     was |-> CASE b % 4 = 0 -> <<>> [] b % 4 = 1 -> [i \in 1..(1 + PR(key, "len", 5000)) |-> 10] [] b % 4 = 2 -> [i \in 1..(1 + PR(key, "len", 3000)) |-> 33]
               [] OTHER -> [i \in 1..(5 * PR(key, "len", 300)) |-> <<49, 32, 43, 32, 10>>[1 + (i % 5)]]]
Check(tag, p) ==
    LET r == Call(IF tag \in {"longrun", "saved"} THEN tag ELSE IF tag \in {"rebuild", "renames"} THEN "rebuild" ELSE "roundtrip", p) IN
    CASE tag = "saved" -> Report(tag, p, JudgeSaved(p, r))
      [] tag = "rebuild" -> Report(tag, p, JudgeRebuild(p, r))
      [] tag = "renames" -> Report(tag, p, JudgeRenames(p, r))
      [] tag = "longrun" -> Report(tag, p, JudgeLong(p, r))
      [] tag = "roundtrip" -> /\ Report(tag, p, JudgeRoundtrip(p, r))
                              /\ Tally("cov:shift", HasShift(r.v))
                              /\ Tally("cov:inlining-limit", {k \in 1..Len(r.v.tree) : Ops(r.v.tree[k].e) = 5} # {})
                              /\ Tally("info:design-instructions", SameOpsUO(Unroll(DecompileDesign(p)).p, p) /\ Len(DecompileDesign(p)) = Len(r.v.ins))
                              /\ Tally("info:design-script", r.v.tree = BuildDesign(DecompileDesign(p)))
      [] tag = "names" -> Report(tag, p, JudgeNames(p, r))

RECURSIVE Renamed(_, _, _)
Renamed(t, from, to) ==
    CASE t[1] = "op" -> t
      [] t[1] = "id" -> <<"id", IF t[2] \in Range(from) THEN to[CHOOSE k \in 1..Len(from) : from[k] = t[2]] ELSE t[2]>>
      [] t[1] = "add" -> <<"add", Renamed(t[2], from, to), Renamed(t[3], from, to)>>
      [] t[1] = "dbl" -> <<"dbl", Renamed(t[2], from, to)>>
      [] OTHER -> <<"shl", Renamed(t[2], from, to), t[3]>>
RECURSIVE Uses(_, _), PutIn(_, _, _)
Uses(t, n) == CASE t[1] = "op" -> 0 [] t[1] = "id" -> IF t[2] = n THEN 1 ELSE 0 [] t[1] = "add" -> Uses(t[2], n) + Uses(t[3], n) [] OTHER -> Uses(t[2], n)
PutIn(t, n, x) == CASE t[1] = "op" -> t [] t[1] = "id" -> IF t[2] = n THEN x ELSE t [] t[1] = "add" -> <<"add", PutIn(t[2], n, x), PutIn(t[3], n, x)>>
                  [] t[1] = "dbl" -> <<"dbl", PutIn(t[2], n, x)>> [] OTHER -> <<"shl", PutIn(t[2], n, x), t[3]>>
(* a script for a random program, some of its expressions put into others, in which the names are swapped for others *)
RebuildText(b) ==
    LET key == <<Seed, "rebuild", b>>
        p == IF b % 5 = 0 THEN RunsProg(key, 3 + PR(key, "n", 8)) ELSE RandProg(key, 2 + PR(key, "n", 14), PR(key, "style", 6))
        c == EvalProg(p)
        ss == BuildDesign(DecompileDesign(p))
        n == Len(ss)
        old == [k \in 1..(n-1) |-> ss[k].n]
        el(k) == PR(<<key, k>>, "el", Len(c))
        anon == [i \in 1..(Len(c) - 1) |-> i]
        made(i) == IF BBitLen(c[i+1]) <= 8 THEN <<95>> \o [j \in 1..BBitLen(c[i+1]) |-> 48 + BBit(c[i+1], BBitLen(c[i+1]) - j)]
                   ELSE IF IsOnes(c[i+1]) THEN <<120>> \o DecText(BFromInt(BBitLen(c[i+1]))) ELSE <<105>> \o DecText(BFromInt(i))
        cand(k) ==
            LET kind == PR(<<key, k>>, "kind", IF anon = <<>> THEN 6 ELSE 8)
                v == c[el(k) + 1]
            IN CASE kind = 0 -> old[k]
                 [] kind \in {1, 2} /\ BBitLen(v) <= 10 -> <<95>> \o [i \in 1..BBitLen(v) |-> 48 + BBit(v, BBitLen(v) - i)]
                 [] kind = 3 -> <<120>> \o DecText(BFromInt(IF PR(<<key, k>>, "x", 2) = 0 THEN BBitLen(v) ELSE 1 + PR(<<key, k>>, "xn", 9)))
                 [] kind = 4 -> <<105>> \o DecText(BFromInt(el(k))) \o (IF PR(<<key, k>>, "us", 4) = 0 THEN <<95>> ELSE <<>>)
                 [] kind > 5 -> made(anon[1 + PR(<<key, k>>, "an", Len(anon))])
                 [] OTHER -> <<113>> \o DecText(BFromInt(k))
        new == FoldLeft(LAMBDA acc, k : Append(acc, LET w == cand(k) IN IF w \in Range(acc) THEN <<117>> \o DecText(BFromInt(k)) ELSE w), <<>>, [k \in 1..(n-1) |-> k])
        ren == [k \in 1..n |-> [n |-> IF k = n THEN <<>> ELSE new[k], e |-> Renamed(ss[k].e, old, new)]]
        once(k) == FoldLeft(LAMBDA u, m : u + Uses(ren[m].e, new[k]), 0, [m \in 1..n |-> m]) = 1
        r == FoldLeft(LAMBDA acc, k :
                LET w == FoldLeft(LAMBDA u, q : PutIn(u, q.n, q.e), ren[k].e, acc.sub) IN
                IF k < n /\ once(k) /\ PR(<<key, k>>, "inline", 2) = 0 THEN [acc EXCEPT !.sub = Append(@, [n |-> ren[k].n, e |-> w])]
                ELSE [acc EXCEPT !.out = Append(@, [n |-> ren[k].n, e |-> w])],
             [sub |-> <<>>, out |-> <<>>], [k \in 1..n |-> k])
    IN CanonScript(r.out, 1)

Shift16(b) == <<65536, 65535, 65537, 65540, 66001, 65793>>[1 + (b % 6)]
LongShape(b) ==  \* (the first case does not depend on the seed)
    LET n == IF b = 1 THEN 66001 ELSE Shift16(b + Seed)
        k == IF b = 1 THEN 0 ELSE (b + Seed) % 4
    IN CASE k = 0 -> <<<<0, 0, n - 1>>, <<n, 0, 0>>>>                            \* 1 << n, plus 1
         [] k = 1 -> <<<<0, 0, 1>>, <<2, 0, n>>, <<n + 3, 3, 2>>>>
         [] k = 2 -> <<<<0, 0, n>>, <<n + 1, n, 0>>>>                             \* the last but one is read
         [] OTHER -> <<<<0, 0, 0>>, <<1, 0, n - 1>>, <<n + 1, 0, 0>>, <<n + 2, n + 1, 300>>>>

(* ---------- behaviours ---------- *)
Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ st' = [t |-> "prog", p |-> <<>>, c |-> <<BOne>>]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..(RebuildRuns \div 4) : st' = [t |-> "saved", b |-> b]
    \/ \E b \in 1..RebuildRuns : st' = [t |-> "rebuild", b |-> b]
    \/ \E b \in 1..BigRuns : st' = [t |-> "big", b |-> b]
    \/ \E b \in 1..SearchRuns : st' = [t |-> "search", b |-> b]
ProgStep == st.t = "prog" /\ Len(st.p) < ProgLen /\ \E i \in 0..Len(st.p) : \E j \in i..Len(st.p) :
    LET v == BAdd(st.c[i+1], st.c[j+1])
        both == Len(st.p) < OrderLen
        flip == Rand(<<Seed, st.p, i, j>>, 2) = 1
    IN v \notin Range(st.c) /\ \E o \in (IF both THEN {<<i, j>>, <<j, i>>} ELSE IF flip THEN {<<j, i>>} ELSE {<<i, j>>}) :
       st' = [t |-> "prog", p |-> Append(st.p, o), c |-> Append(st.c, v)]
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        k == PR(key, "style", 7)
    IN st' = [t |-> "case", p |-> IF k = 6 THEN RunsProg(key, 3 + PR(key, "n", 12)) ELSE RandProg(key, 4 + PR(key, "n", MaxOps), k)]
(* far longer shifts, runs of ones, expressions and names than fit a byte *)
PickBig == st.t = "big" /\
    LET key == <<Seed, "big", st.b>>
        k == st.b % 4
    IN st' = [t |-> "case", p |->
        CASE k = 0 -> RunsProgTo(key, 10 + PR(key, "n", 8), 700 + PR(key, "cap", 600))
          [] k = 1 -> ShiftsProg(key, 2 + PR(key, "n", 3), <<1, 2, 63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 513, 700>>)
          [] k = 2 -> RandProg(key, 200 + PR(key, "n", 100), PR(key, "style", 6))
          [] k = 3 -> LET l == Ladder(<<200, 255, 256, 257, 300, 511, 513>>[1 + PR(key, "l", 7)]) IN
                      l \o <<<<Len(l), Len(l)>>, <<Len(l) + 1, Len(l) + 1>>, <<Len(l) + 2, Len(l)>>>>]
PickLong == st.t = "root" /\ \E b \in 1..LongShifts : st' = [t |-> "longrun", p |-> LongShape(b)]
Next == PickLong \/ Root \/ ProgStep \/ PickRnd \/ PickBig
Spec == Init /\ [][Next]_vars

SearchProg(b) == LET key == <<Seed, "search", b>>
                     r == Call("searchprog", <<IF b <= 150 THEN BFromInt(b) ELSE Target(key, 8 + PR(key, "bits", SearchBits)), PR(key, "alg", 10000)>>)
                 IN IF r.st = "ok" THEN r.v ELSE <<>>
Progs == CASE st.t \in {"prog", "case"} -> {st.p}
           [] st.t = "search" -> {SearchProg(st.b)}
           [] OTHER -> {}
InvC04 == /\ \A p \in Progs : Check("roundtrip", p)
          /\ st.t = "longrun" => Check("longrun", st.p)
          /\ st.t = "saved" => Check("saved", SavedCase(st.b))
          /\ st.t = "rebuild" => Check("rebuild", RebuildText(st.b))
InvC16 == /\ \A p \in Progs : Check("names", p)
          /\ st.t = "rebuild" => Check("renames", RebuildText(st.b))

(* the designs: decompiling loses nothing, and the built script computes the   *)
(* program *)
ModelInv ==
    st.t = "prog" =>
      LET d == DecompileDesign(st.p)
          ss == BuildDesign(d)
          e == EvalScript(ss)
          names == [k \in 1..Len(ss) |-> ss[k].n]
      IN /\ Unroll(d).ok /\ Unroll(d).p = st.p /\ WellFormed(d)
         /\ e.ok /\ ~e.loose /\ e.c = EvalProg(st.p) /\ SameOpsUO(e.p, st.p)
         /\ NoRepeat(names)
=============================================================================
