------------------------------- MODULE MC_Gen -------------------------------
(***************************************************************************)
(* C06.  States: scripts grown statement by statement over every small        *)
(* expression -- index operands into the middle of shifts, dead statements,    *)
(* names that only rename --, random scripts in random spellings, scripts       *)
(* printed by the search pipeline.  The real generator (the library and the      *)
(* command) renders each with every builtin template; the listing is run on a     *)
(* register machine, with the output register distinct from and the same as the   *)
(* input register, and the other outputs are compared with the evaluation of the  *)
(* script by the specification.                                                    *)
(***************************************************************************)
EXTENDS IRSem, ScriptGen, Targets

CONSTANTS Seed, Stmts, WideStmts, Rounds, PerRound, MaxStmts, SearchRuns, SearchBits, CliRuns, LongRuns, MidRuns

VARIABLE st
vars == st

(* ---------- judgement ---------- *)
Reg(r) == r
ListingOK(l, in, out, want) ==
    LET rows == l.rows
        n == Len(rows)
        code == [k \in 1..n |-> [op |-> CASE rows[k].op = "double" -> "dbl" [] rows[k].op = "shift" -> "shl" [] OTHER -> rows[k].op,
                                 z |-> rows[k].z, x |-> rows[k].x, y |-> rows[k].y, s |-> rows[k].s]]
        declared == {in, out} \cup Range(l.tmp)
        fold(reg) == IF reg = out THEN in ELSE reg
        plain == RunCode(code, <<<<in, BOne>>>>, Reg)
        alias == RunCode(code, <<<<in, BOne>>>>, fold)
    IN /\ NoRepeat(l.tmp) /\ in \notin Range(l.tmp) /\ out \notin Range(l.tmp)
       /\ \A k \in 1..n : /\ code[k].z \in declared /\ code[k].x \in declared
                          /\ code[k].op = "add" => code[k].y \in declared
       /\ plain.ok /\ Get(plain.regs, out) = want
       /\ alias.ok /\ Get(alias.regs, in) = want
ChainOK(rows, c) == Len(rows) = Len(c) /\ \A k \in 1..Len(c) : rows[k][1] = rows[1][1] + (k - 1) /\ rows[k][2] = c[k]
OpsOK(rows, p, c) ==
    /\ Len(rows) = Len(p)
    /\ \A k \in 1..Len(p) : rows[k][1] = rows[1][1] + (k - 1) /\ rows[k][4] = c[k+1]
    /\ SameOpsUO([k \in 1..Len(p) |-> <<rows[k][2], rows[k][3]>>], p)
(* the printed script loads, in the model and in the implementation, as the same chain *)
ScriptOK(text, p, c) ==
    LET g == ParseScript(text)
        e == EvalScript(g.ss)
        l == Call("load", text)
    IN /\ g.ok /\ e.ok /\ ~e.loose /\ e.c = c /\ SameOpsUO(e.p, p)
       /\ l.st = "ok" /\ l.v.lok /\ l.v.chain = c /\ SameOpsUO(l.v.ops, p)

Accepted(v) == v.ok
JudgeGen(a, r) ==
    LET g == ParseScript(a.src)
        e == EvalScript(g.ss)
        c == e.c
    IN /\ r.st = "ok"
       /\ (r.v.ok /\ g.ok /\ e.ok /\ ~e.loose) =>
            /\ ListingOK(r.v.listing, a.in, a.out, c[Len(c)])
            /\ ChainOK(r.v.chain, c)
            /\ OpsOK(r.v.ops, e.p, c)
            /\ ScriptOK(r.v.script, e.p, c)
       /\ (r.v.ok /\ g.ok) => e.ok           \* nothing is generated from a script without a meaning

TGen == <<103, 101, 110>>                 TType == <<45, 116, 121, 112, 101>>
TypText(t) == CASE t = "listing" -> <<108, 105, 115, 116, 105, 110, 103>>
                [] t = "chain" -> <<99, 104, 97, 105, 110>>
                [] t = "ops" -> <<111, 112, 115>>
                [] t = "script" -> <<115, 99, 114, 105, 112, 116>>
(* the ways to call it: script from standard input or a file, output to        *)
(* standard output, a new file or over a longer old one, template by name or       *)
(* from a file                                                                       *)
TOut == <<45, 111, 117, 116>>   TTmpl == <<45, 116, 109, 112, 108>>
FIn == <<105, 110>>   FOut == <<111>>   FTm == <<116>>
Old == [i \in 1..6000 |-> IF i % 40 = 0 THEN 10 ELSE 48 + (i % 10)]
CliArgs(a) ==
    LET out == IF a.how \in {2, 3, 5} THEN <<TOut, FOut>> ELSE <<>>
        typ == IF a.how \in {4, 5} THEN <<TTmpl, FTm>> \o (IF a.how = 5 THEN <<TType, TypText("chain")>> ELSE <<>>) ELSE <<TType, TypText(a.typ)>>
        inp == IF a.how \in {1, 3} THEN <<FIn>> ELSE <<>>
        bt == Call("builtin", <<a.typ>>)
    IN [args |-> <<TGen>> \o (IF a.how = 3 THEN out \o typ ELSE typ \o out) \o inp,
        in |-> IF inp = <<>> THEN a.src ELSE <<49>>,
        files |-> (IF inp = <<>> THEN <<>> ELSE << <<FIn, a.src>> >>) \o (IF a.how \in {2, 5} THEN << <<FOut, Old>> >> ELSE <<>>)
                  \o (IF a.how \in {4, 5} THEN << <<FTm, bt.v.text>> >> ELSE <<>>),
        read |-> FOut]
JudgeCli(a) ==         \* a: [typ, src, how]
    LET r == Call("cli", CliArgs(a))
        filed == a.how \in {2, 3, 5}
        output == IF filed THEN r.v.read ELSE r.v.out
        g == ParseScript(a.src)
        e == EvalScript(g.ss)
        c == e.c
        o == Call("genout", <<a.typ, output>>)
    IN /\ r.st = "ok" /\ r.v.status \in {0, 1}
       /\ r.v.status = 1 => r.v.err # <<>>
       /\ (filed /\ r.v.status = 0) => r.v.exists /\ r.v.out = <<>>
       /\ (r.v.status = 0 /\ g.ok) => e.ok
       /\ (r.v.status = 0 /\ g.ok /\ e.ok /\ ~e.loose) =>
            /\ o.st = "ok"
            /\ CASE a.typ = "listing" -> ListingOK(o.v, <<120>>, <<122>>, c[Len(c)])
                 [] a.typ = "chain" -> ChainOK(o.v, c)
                 [] a.typ = "ops" -> OpsOK(o.v, e.p, c)
                 [] a.typ = "script" -> ScriptOK(o.v, e.p, c)
       /\ Tally("cov:cli-accepted", r.v.status = 0)

Check(tag, a) ==
    CASE tag = "gen" ->
            LET r == Call("gen", a) IN
            /\ Report(tag, a, JudgeGen(a, r))
            /\ LET g == ParseScript(a.src)
                   e == EvalScript(g.ss)
                   dang == g.ok /\ e.ok /\ ~e.loose /\ Dangling(e.ins)
               IN /\ Tally("cov:accepted", r.v.ok)
                  /\ Tally("cov:dangling", dang) /\ Tally("info:dangling-accepted", dang /\ r.v.ok)
                  /\ Tally("info:refused-sound", ~r.v.ok /\ g.ok /\ e.ok /\ ~e.loose /\ ~Dangling(e.ins) /\ e.ins # <<>>)
                  /\ Tally("cov:aliases", g.ok /\ e.ok /\ \E k \in 1..Len(g.ss) : g.ss[k].e[1] \in {"op", "id"})
      [] tag = "gencli" -> Report(tag, a, JudgeCli(a))

(* ---------- behaviours ---------- *)
Pool == <<NX, NI2, <<122>>>>
Leaves(k, wide) ==
    {<<"op", BZero>>} \cup {<<"op", BFromInt(i)>> : i \in IF wide THEN 1..5 ELSE {2, 3}}
    \cup (IF k > 1 THEN {<<"id", Pool[k-1]>>} ELSE {}) \cup (IF k > 2 /\ wide THEN {<<"id", Pool[1]>>} ELSE {})
Exprs(k, wide) ==
    LET L == Leaves(k, wide) IN
    L \cup {<<"dbl", x>> : x \in L} \cup {<<"shl", x, BFromInt(s)>> : x \in L, s \in IF wide THEN {1, 2, 3} ELSE {3}}
      \cup {<<"add", x, y>> : x \in L, y \in L}
      \cup {<<"shl", <<"add", x, <<"op", BZero>>>>, BFromInt(3)>> : x \in L}
      \cup {<<"add", <<"shl", x, BFromInt(2)>>, y>> : x \in L, y \in L}
(* hundreds of named values alive at once, then summed; and long mixtures *)
NameOf(ch, i) == <<ch>> \o DecText(BFromInt(i))
LongScript(b) ==
    LET key == <<Seed, "long", b>>
        w == <<20, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257>>[1 + GR(key, "w", 12)]
        id(ch, i) == <<"id", NameOf(ch, i)>>
        one == <<"op", BZero>>
        vals == [i \in 1..w |-> [n |-> NameOf(118, i), e |->
                   IF i = 1 THEN <<"dbl", one>> ELSE LET k == GR(<<key, i>>, "k", 4) IN
                   CASE k = 0 -> <<"add", id(118, i-1), one>> [] k = 1 -> <<"add", id(118, i-1), id(118, 1 + GR(<<key, i>>, "x", i-1))>>
                     [] k = 2 -> <<"add", <<"dbl", one>>, id(118, i-1)>> [] OTHER -> <<"add", one, <<"shl", id(118, 1 + GR(<<key, i>>, "x", IF i < 4 THEN i - 1 ELSE 3)), BOne>>>>]]
        sums == [i \in 1..w |-> [n |-> IF i = w THEN <<>> ELSE NameOf(115, i), e |->
                   IF i = 1 THEN <<"add", id(118, w), one>> ELSE <<"add", id(115, i-1), id(118, IF b % 3 = 0 THEN i ELSE w + 1 - i)>>]]
    IN IF b % 2 = 0 THEN vals \o sums
       ELSE LET m == w \div 2 IN SubSeq(vals, 1, m) \o [i \in 1..m |-> [n |-> IF i = m THEN <<>> ELSE NameOf(115, i), e |->
                   IF i = 1 THEN <<"shl", id(118, m), BFromInt(3)>> ELSE <<"add", <<"add", id(115, i-1), id(118, 1 + GR(<<key, i>>, "z", m))>>, <<"op", BFromInt(GR(<<key, i>>, "q", m))>>>>]]
(* reads of an element inside a long run of doublings: its first, its last but  *)
(* one, and any other                                                           *)
MidScript(b) ==
    LET key == <<Seed, "mid", b>>
        s == <<2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300>>[1 + GR(key, "s", 25)]
        pre == GR(key, "pre", 3)
        one == <<"op", BZero>>
        n0 == pre
        base == CASE pre = 0 -> one [] pre = 1 -> <<"id", NX>> [] OTHER -> IF GR(key, "which", 2) = 0 THEN <<"op", BTwo>> ELSE <<"op", BOne>>
        head == CASE pre = 0 -> <<>> [] pre = 1 -> <<[n |-> NX, e |-> <<"dbl", one>>]>> [] OTHER -> <<[n |-> NX, e |-> <<"add", <<"dbl", one>>, one>>]>>
        at == n0 + (CASE GR(key, "at", 8) < 4 -> s - 1 [] GR(key, "at", 8) < 6 -> 1 [] OTHER -> 1 + GR(key, "i", s))
        m == <<"op", BFromInt(at)>>
        v == IF GR(key, "v", 2) = 0 THEN <<"id", NY>> ELSE <<"op", BFromInt(n0 + s)>>
        shift == [n |-> NY, e |-> <<"shl", base, BFromInt(s)>>]
        k == GR(key, "k", 8)
        use == CASE k = 0 -> <<"add", m, one>> [] k = 1 -> <<"add", one, m>> [] k = 2 -> <<"add", v, m>> [] k = 3 -> <<"dbl", m>>
                 [] k = 4 -> <<"shl", m, BFromInt(1 + GR(key, "s2", 5))>> [] k = 5 -> <<"add", m, v>>
                 [] k = 6 -> <<"add", <<"shl", v, BFromInt(1 + GR(key, "s3", 40))>>, m>> [] OTHER -> <<"add", <<"add", v, one>>, m>>
        named == [n |-> NX3, e |-> m]
        form == GR(key, "form", 6)
    IN head \o <<shift>> \o
       (CASE form = 0 -> <<named, [n |-> <<>>, e |-> <<"add", <<"id", NX3>>, v>>]>>          \* a name for it
          [] form = 1 -> <<[n |-> NX3, e |-> use], [n |-> <<>>, e |-> <<"add", v, one>>]>>     \* read by a statement nothing uses
          [] form = 2 -> <<[n |-> NX3, e |-> use], [n |-> <<>>, e |-> <<"add", <<"id", NX3>>, v>>]>>
          [] form = 3 -> <<named, [n |-> <<>>, e |-> <<"add", v, one>>]>>                       \* named and never read
          [] OTHER -> <<[n |-> <<>>, e |-> use]>>)
Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ st' = [t |-> "grow", ss |-> <<>>, wide |-> TRUE]
    \/ st' = [t |-> "grow", ss |-> <<>>, wide |-> FALSE]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..SearchRuns : st' = [t |-> "search", b |-> b]
    \/ \E b \in 1..LongRuns : st' = [t |-> "long", b |-> b]
    \/ \E b \in 1..MidRuns : st' = [t |-> "mid", b |-> b]
    \/ \E b \in 1..CliRuns : st' = [t |-> "cli", b |-> b]
Named(ss) == [k \in 1..Len(ss) |-> [n |-> IF k = Len(ss) THEN <<>> ELSE Pool[k], e |-> ss[k]]]
Grow == st.t = "grow" /\ Len(st.ss) < (IF st.wide THEN WideStmts ELSE Stmts) /\
    \E x \in Exprs(Len(st.ss) + 1, st.wide) :
        LET e == EvalScript(Named(Append(st.ss, x))) IN
        e.ok /\ ~e.loose /\ st' = [st EXCEPT !.ss = Append(@, x)]
Small(ss) == Bounded(ss, 400)
RandSource(key) ==
    LET ss == RandScriptFrom(key, 1 + GR(key, "n", MaxStmts), 1 + GR(key, "d", 4), PlainNames)
        k == GR(key, "spell", 4)
        s == IF k = 0 THEN CanonScript(ss, 1) ELSE SpellScript(ss, key)
    IN IF k = 3 THEN Edit(s, key) ELSE s
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound : st' = [t |-> "case", key |-> <<Seed, st.b, i>>]
Next == Root \/ Grow \/ PickRnd
Spec == Init /\ [][Next]_vars

X == <<120>>   Z == <<122>>
TFormat == <<116, 37, 100>>        \* t%d
ZFormat == <<122, 37, 48, 50, 100>>   \* z%02d
Case(src, key) == IF GR(key, "cfg", 3) > 0 THEN [src |-> src, in |-> X, out |-> Z, format |-> TFormat]
                  ELSE [src |-> src, in |-> <<97>>, out |-> <<98>>, format |-> ZFormat]
Printed(key, b) ==
    LET p == Call("searchprog", <<IF b <= 60 THEN BFromInt(b + 1) ELSE Target(key, 8 + GR(key, "bits", SearchBits)), GR(key, "alg", 10000)>>)
        r == Call("roundtrip", IF p.st = "ok" THEN p.v ELSE <<>>)
    IN IF p.st = "ok" /\ p.v # <<>> /\ r.st = "ok" /\ r.v.ok THEN {r.v.text} ELSE {}
Within(src) == LET g == ParseScript(src) IN ~g.ok \/ Small(g.ss)
Sources == CASE st.t = "grow" -> IF st.ss = <<>> THEN {} ELSE {CanonScript(Named(st.ss), 1)}
             [] st.t = "case" -> {RandSource(st.key)}
             [] st.t = "long" -> {CanonScript(LongScript(st.b), 1)}
             [] st.t = "mid" -> {CanonScript(MidScript(st.b), 1)}
             [] st.t = "search" -> Printed(<<Seed, "search", st.b>>, st.b)
             [] OTHER -> {}
CaseKey == CASE st.t = "long" -> <<Seed, st>> [] st.t = "case" -> st.key [] st.t = "grow" -> <<st.ss>> [] OTHER -> <<Seed, st>>
Typs == <<"listing", "chain", "ops", "script">>
ImplInv ==
    /\ \A s \in Sources : Within(s) => Check("gen", Case(s, CaseKey))
    /\ st.t = "cli" => LET key == <<Seed, "cli", st.b>>
                           s == RandSource(key)
                       IN Within(s) => Check("gencli", [typ |-> Typs[1 + (st.b % 4)], src |-> s, how |-> (st.b \div 4) % 6])

(* the design refuses exactly the scripts with dangling reads or no instructions; *)
(* what it accepts is allocated so that the listing computes the chain              *)
ModelInv ==
    st.t = "grow" /\ st.ss # <<>> =>
      LET e == EvalScript(Named(st.ss))
          ins == e.ins
      IN ins # <<>> /\ ~Dangling(ins) =>
           LET stg == TLCEval(Storage(ins))
               code == [k \in 1..Len(ins) |-> [op |-> ins[k].op, z |-> stg[ins[k].out], x |-> stg[ins[k].x], y |-> stg[ins[k].y], s |-> ins[k].s]]
               fold(reg) == IF reg = 0 - 2 THEN 0 - 1 ELSE reg
               plain == RunCode(code, <<<<0 - 1, BOne>>>>, Reg)
               alias == RunCode(code, <<<<0 - 1, BOne>>>>, fold)
           IN /\ plain.ok /\ Get(plain.regs, 0 - 2) = e.c[Len(e.c)]
              /\ alias.ok /\ Get(alias.regs, 0 - 1) = e.c[Len(e.c)]
=============================================================================
