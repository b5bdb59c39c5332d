------------------------------ MODULE MC_Parse ------------------------------
(***************************************************************************)
(* C03.  States: token sequences over the alphabet of the language (grown    *)
(* one token at a time, from the empty text and from a text that defines     *)
(* names and elements), syntax trees grown by operator application and       *)
(* spelled in several ways, random scripts, and edited scripts.  For every   *)
(* text the real parser's tree and the loaded chain are compared with the     *)
(* grammar and the evaluation rules.                                          *)
(***************************************************************************)
EXTENDS ScriptGen, RunSem, TLC

CONSTANTS Seed, TokLen, CoreLen, TreeOps, Styles, Rounds, PerRound, CliRuns, LongTexts, NameRuns, LongShifts, ViaRuns

VARIABLE st
vars == st

Cap == 3000
Toks == {<<49>>, <<50>>, <<42>>, <<43>>, <<60, 60>>, <<40>>, <<41>>, <<91>>, <<93>>, <<61>>, <<10>>, NX, TDbl, TShl, TAdd, TReturn, <<32>>,
         <<48>>, <<48, 49, 50>>, <<48, 120, 51>>, <<56>>}
CoreToks == {<<49>>, <<50, 42>>, <<43>>, <<60, 60, 50>>, <<40>>, <<41>>, NX, <<91, 49, 93>>, <<91, 51, 93>>, TDbl \o <<32>>}
Contexts == {<<>>, NX \o <<61>> \o <<50, 42, 49, 60, 60, 50, 10>>, NX \o <<61, 49, 60, 60, 50, 10>>}

JudgeLoad(s, r) ==
    r.st = "ok" /\
    LET g == ParseScript(s)
        e == EvalScript(g.ss)
    IN /\ r.v.pok = g.ok
       /\ g.ok => r.v.tree = g.ss
       /\ ~g.ok => ~r.v.lok
       /\ g.ok => /\ ~e.ok => ~r.v.lok
                  /\ (e.ok /\ ~e.loose) => r.v.lok
                  /\ r.v.lok => r.v.chain = e.c /\ Computes(r.v.ops, e.c)
JudgeParse(s, r) ==
    r.st = "ok" /\ LET g == ParseScript(s) IN r.v.pok = g.ok /\ (g.ok => r.v.tree = g.ss)

TEval == <<101, 118, 97, 108>>
JudgeCli(s, r) ==
    r.st = "ok" /\
    LET g == ParseScript(s)
        e == EvalScript(g.ss)
    IN IF ~g.ok \/ ~e.ok THEN r.v.status = 1 /\ r.v.out = <<>> /\ r.v.err # <<>>
       ELSE IF e.loose THEN r.v.status \in {0, 1}
       ELSE r.v.status = 0 /\
            LET o == Call("evalout", r.v.out) IN
            o.st = "ok" /\ Len(o.v.ops) = Len(e.p) /\
            \A k \in 1..Len(e.p) : LET l == o.v.ops[k] IN
                l[1] = k /\ l[4] = e.c[k+1] /\ l[2] < k /\ l[3] < k /\ BAdd(e.c[l[2]+1], e.c[l[3]+1]) = e.c[k+1]

ToEval(s) == LET g == ParseScript(s) IN ~g.ok \/ Bounded(g.ss, Cap)
Count(s) ==
    LET g == ParseScript(s) IN
    /\ Tally("cov:reject-syntax", ~g.ok)
    /\ g.ok => LET e == EvalScript(g.ss) IN
               /\ Tally("cov:reject-meaning", ~e.ok)
               /\ Tally("cov:open", e.ok /\ e.loose)
               /\ Tally("cov:accept", e.ok /\ ~e.loose)
(* shifts beyond two bytes *)
JudgeShift(s, r) ==
    r.st = "ok" /\ r.v.lok /\
    LET g == ParseScript(s)
        e == RunsOfScript(g.ss)
    IN /\ g.ok /\ e.ok
       /\ r.v.runs = e.rs /\ r.v.n = e.n + 1 /\ r.v.end = RunEndVal(e)
(* A source text arrives through a reader, in pieces: the text is what the     *)
(* pieces put together say, however they are cut and whether or not the end     *)
(* comes with the last one; a reader that fails has delivered no source text.    *)
JudgeVia(a, r) == IF a.end \in {"fail", "failwith"} THEN r.st = "ok" /\ ~r.v.pok /\ ~r.v.lok ELSE JudgeLoad(a.s, r)
Check(tag, a) ==
    CASE tag = "load" -> IF ToEval(a) THEN LET r == Call("load", a) IN Report(tag, a, JudgeLoad(a, r)) /\ Count(a)
                         ELSE LET r == Call("parseonly", a) IN Report(tag, a, JudgeParse(a, r))
      [] tag = "loadrep" -> LET s == a[1] \o a[2] \o a[4] IN
                            ToEval(s) => LET r == Call("loadrep", a) IN Report(tag, a, JudgeLoad(s, r)) /\ Tally("cov:long-accepted", r.st = "ok" /\ r.v.lok)
      [] tag = "loadvia" -> ToEval(a.s) => LET r == Call("loadvia", a) IN Report(tag, a, JudgeVia(a, r))
                                          /\ Tally("cov:via-accepted", r.st = "ok" /\ r.v.lok) /\ Tally("cov:via-failed", a.end \in {"fail", "failwith"})
      [] tag = "loadruns" -> LET r == Call("loadruns", a) IN Report(tag, a, JudgeShift(a, r))
      [] tag = "evalcli" -> ToEval(a) => LET r == Call("cli", [args |-> <<TEval>>, in |-> a]) IN Report(tag, a, JudgeCli(a, r))

(* ---------- behaviours ---------- *)
(* every byte at every place of a few texts *)
Templates == << <<49>>, NX \o <<61, 49, 10>> \o NX, TReturn \o <<32>> \o <<40, 50, 42, 49, 41, 60, 60, 51>>,
                NY \o <<61>> \o TDbl \o <<32, 49, 32>> \o TAdd \o <<32, 91, 48, 93, 10, 49, 43>> \o NY, <<91, 48, 120, 48, 93, 32>> \o TShl \o <<32, 48, 49>>,
                NX3 \o <<32, 61, 32, 49, 60, 60, 49, 50, 10>> \o NX3 \o <<32, 10>> >>
Init == st = [t |-> "root"]
Leaves == {<<"op", BZero>>, <<"op", BFromInt(2)>>, <<"id", NX>>}
RECURSIVE TreesOf(_)
TreesOf(n) == IF n = 0 THEN Leaves
    ELSE LET T == TreesOf(n-1) IN {<<"dbl", x>> : x \in T} \cup {<<"shl", x, BTwo>> : x \in T}
         \cup UNION {{<<"add", x, y>> : x \in TreesOf(i), y \in TreesOf(n-1-i)} : i \in 0..(n-1)}
Root == st.t = "root" /\
    \/ st' = [t |-> "tok", s |-> <<>>, n |-> 0]
    \/ \E p \in Contexts : st' = [t |-> "core", s |-> p, n |-> 0]
    \/ \E n \in 0..TreeOps : st' = [t |-> "trees", n |-> n]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..CliRuns : st' = [t |-> "cli", b |-> b]
    \/ \E k \in 1..Len(Templates) : \E i \in 0..Len(Templates[k]) : \E m \in {0, 1} : st' = [t |-> "byte", k |-> k, i |-> i, m |-> m, c |-> -1]
    \/ \E k \in 1..Len(Templates) : \E i \in 0..Len(Templates[k]) : st' = [t |-> "swap", k |-> k, i |-> i]
    \/ \E b \in 1..LongShifts : st' = [t |-> "shift", b |-> b]
    \/ \E b \in 1..ViaRuns : st' = [t |-> "via", b |-> b]
    \/ \E b \in 1..NameRuns : st' = [t |-> "name", b |-> b]
    \/ \E b \in 1..LongTexts : st' = [t |-> "long", b |-> b]
TokStep == st.t = "tok" /\ st.n < TokLen /\ \E k \in Toks : st' = [t |-> "tok", s |-> st.s \o k, n |-> st.n + 1]
CoreStep == st.t = "core" /\ st.n < CoreLen /\ \E k \in CoreToks : st' = [t |-> "core", s |-> st.s \o k, n |-> st.n + 1]
TreeStep == st.t = "trees" /\ \E x \in TreesOf(st.n) : st' = [t |-> "tree", e |-> x]
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        d == GR(key, "depth", 4)
        ss == RandScript(key, 1 + GR(key, "n", 7), IF d = 0 THEN 7 ELSE 1 + d)
        s == SpellScript(ss, key)
        k == GR(key, "how", 4)
    IN st' = [t |-> "case", s |-> IF k < 3 THEN s ELSE Edits(s, key, 1 + GR(key, "ne", 3))]
ByteStep == st.t = "byte" /\ st.c < 0 /\ \E c \in 0..255 : st' = [st EXCEPT !.c = c]
Swapped(s, k) == [i \in 1..Len(s) |-> IF i = k \/ k = 0 THEN SwapCase(s[i]) ELSE s[i]]
(* Long texts: a blank, a letter inside a name or a leading zero, repeated     *)
(* tens of thousands of times.  In the grammar one of them does as well as     *)
(* many, so the text with one is what the answer is compared with.             *)
LongCase(b) ==
    LET key == <<Seed, "long", b>>
        n == <<300, 5000, 65530, 65540, 70000, 140000>>[1 + (b % 6)]
        k == GR(key, "k", 6)
        s == SpellScript(RandScript(key, 1 + GR(key, "n", 4), 2), key)
        i == GR(key, "at", Len(s) + 1)
        two == SubSeq(s, 1, i)  rest == SubSeq(s, i+1, Len(s))
        name == NX \o <<113>>
    IN CASE k < 3 -> <<two, <<<<32, 9, 13>>[k+1]>>, n, rest>>
         [] k = 3 -> <<name, <<113>>, n, <<61, 49, 10>> \o (IF GR(key, "same", 2) = 0 THEN NX \o <<43, 49>> ELSE <<49, 43, 49>>)>>
         [] k = 4 -> <<NX \o <<61, 91, 48>>, <<48>>, n, (IF GR(key, "dig", 3) = 0 THEN <<56>> ELSE <<49>>) \o <<93, 10>> \o NX>>
         [] OTHER -> <<<<49, 60, 60, 48, 120>>, <<48>>, n, <<50>>>>
(* Names of every length that agree in all but one character, the values bound *)
(* to them told apart by the result.                                          *)
Stem(n, c) == [i \in 1..n |-> IF i = 1 THEN 120 ELSE c + (i % 7)]
Differ(w, i) == [k \in 1..Len(w) |-> IF k = i THEN 95 ELSE w[k]]
NameCase(b) ==
    LET key == <<Seed, "name", b>>
        n == <<1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 600>>[1 + (b % 29)]
        w == Stem(n, 98 + GR(key, "c", 12))
        at == CASE GR(key, "at", 3) = 0 -> n [] GR(key, "at", 3) = 1 -> 1 [] OTHER -> 1 + GR(key, "i", n)
        v == IF GR(key, "longer", 4) = 0 THEN w \o <<97>> ELSE Differ(w, at)
        k == GR(key, "k", 4)
    IN CASE k = 0 -> w \o <<61, 49, 60, 60, 49, 10>> \o v \o <<61>> \o w \o <<43, 49, 10>> \o w \o <<43>> \o v
         [] k = 1 -> w \o <<61, 49, 60, 60, 50, 10>> \o v \o <<61, 50, 42>> \o w \o <<10, 50, 42>> \o w \o <<43>> \o v
         [] k = 2 -> w \o <<61, 49, 60, 60, 50, 10>> \o v                     \* an undefined name
         [] OTHER -> w \o <<61, 49, 60, 60, 50, 10>> \o v \o <<61, 49, 10>> \o w \o <<61, 49, 10>> \o v    \* defined twice
(* scripts of many statements, and sums of many terms *)
Dec3(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE Lines(_, _, _)
Lines(key, i, n) == IF i > n THEN <<>>
    ELSE LET ref(t) == IF i = 1 \/ GR(key, <<t, i>>, 5) = 0 THEN <<49>>
                       ELSE IF GR(key, <<t, i>>, 5) = 1 THEN <<91>> \o Dec3(GR(key, <<t, "ix", i>>, i)) \o <<93>>
                       ELSE <<118>> \o Dec3(IF GR(key, <<t, i>>, 5) = 2 THEN GR(key, <<t, "v", i>>, i - 1) + 1 ELSE i - 1)
         IN <<118>> \o Dec3(i) \o <<61>> \o ref("a") \o (IF GR(key, <<"o", i>>, 5) = 0 THEN <<60, 60, 49>> ELSE <<43>> \o ref("b")) \o <<10>> \o Lines(key, i + 1, n)
ShiftText(b) == LET n == IF b = 1 THEN 66001 ELSE <<65536, 65535, 65537, 65540, 66001, 65793>>[1 + ((b + Seed) % 6)] IN
    CASE (b + Seed) % 3 = 0 -> <<49, 60, 60>> \o DecText(BFromInt(n))
      [] (b + Seed) % 3 = 1 -> NX \o <<61, 49, 60, 60>> \o DecText(BFromInt(n)) \o <<10>> \o NX \o <<43, 49>>
      [] OTHER -> NX \o <<61, 49, 43, 49, 60, 60, 50, 10, 40, 49, 43>> \o NX \o <<41, 60, 60>> \o DecText(BFromInt(n)) \o <<43>> \o NX
ManyCase(b) == LET key == <<Seed, "many", b>>
                   n == <<20, 60, 130, 260, 300>>[1 + (b % 5)]
               IN Lines(key, 1, n) \o <<118>> \o Dec3(1 + GR(key, "last", n)) \o <<43, 118>> \o Dec3(n)
ViaCase(b) ==
    LET key == <<Seed, "via", b>>
        t == SpellScript(RandScript(key, 1 + GR(key, "n", 6), 3), key)
        k == GR(key, "k", 8)
        s == IF k = 0 THEN ManyCase(b) ELSE IF k = 1 THEN Edit(t, key) ELSE IF k = 2 THEN t \o [i \in 1..(500 + GR(key, "pad", 600)) |-> 32] \o <<10>> ELSE t
    IN [s |-> s, end |-> <<"eof", "with", "file", "fail", "failwith", "eof", "with", "file", "eof">>[1 + (b % 9)],
        name |-> <<<<>>, <<120>>, <<37, 115, 37, 100>>, <<97, 32, 98>>, <<195, 169>>>>[1 + GR(key, "name", 5)],
        sizes |-> [i \in 1..(1 + GR(key, "ns", 4)) |-> IF i = 1 THEN 1 + GR(key, "s1", IF GR(key, "big", 3) = 0 THEN 1000 ELSE 4) ELSE GR(key, <<"s", i>>, 40)]]
Next == ByteStep \/ Root \/ TokStep \/ CoreStep \/ TreeStep \/ PickRnd
Spec == Init /\ [][Next]_vars

StmtOf(e) == << [n |-> NX, e |-> <<"shl", <<"op", BZero>>, BTwo>>], [n |-> NY, e |-> e], [n |-> <<>>, e |-> <<"add", <<"id", NY>>, <<"op", BZero>>>>] >>
ImplInv ==
    CASE st.t = "tok" -> Check("load", st.s)
      [] st.t = "core" -> Check("load", st.s) /\ Check("load", st.s \o <<10>>)
      [] st.t = "tree" -> \A k \in 1..Styles :
                             /\ Check("load", SpellScript(StmtOf(st.e), <<Seed, k, st.e>>))
                             /\ Check("load", SpellScript(<<[n |-> <<>>, e |-> st.e]>>, <<Seed, k, st.e>>))
      [] st.t = "case" -> Check("load", st.s)
      [] st.t = "byte" /\ st.c >= 0 -> Check("load", LET s == Templates[st.k] IN SubSeq(s, 1, st.i) \o <<st.c>> \o SubSeq(s, st.i + 1 + st.m, Len(s)))
      [] st.t = "swap" -> Check("load", Swapped(Templates[st.k], st.i))
      [] st.t = "long" -> Check("loadrep", LongCase(st.b))
      [] st.t = "shift" -> Check("loadruns", ShiftText(st.b))
      [] st.t = "name" -> Check("load", IF st.b % 9 = 0 THEN ManyCase(st.b \div 9) ELSE NameCase(st.b))
      [] st.t = "via" -> Check("loadvia", ViaCase(st.b))
      [] st.t = "cli" -> LET key == <<Seed, "cli", st.b>>
                             s == SpellScript(RandScript(key, 1 + GR(key, "n", 6), 3), key)
                         IN Check("evalcli", IF st.b % 3 = 0 THEN Edit(s, key) ELSE s)
      [] OTHER -> TRUE

(* the parser of the specification recognises exactly the language of the     *)
(* literal grammar, and canonical printing of a writable tree parses back      *)
ModelInv ==
    /\ st.t \in {"tok", "core"} => (StmtsAt(st.s, 1, <<>>).ok = InLanguage(st.s))
    /\ st.t = "case" /\ Len(st.s) <= 60 => (StmtsAt(st.s, 1, <<>>).ok = InLanguage(st.s))
    /\ st.t = "tree" => /\ ParseScript(CanonScript(StmtOf(st.e), 1)) = [ok |-> TRUE, ss |-> StmtOf(st.e)]
                        /\ \A k \in 1..Styles : ParseScript(SpellScript(StmtOf(st.e), <<Seed, k, st.e>>)).ss = StmtOf(st.e)
=============================================================================
