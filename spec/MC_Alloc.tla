------------------------------ MODULE MC_Alloc ------------------------------
(***************************************************************************)
(* C05 and C17.  States: well-formed instruction programs grown one           *)
(* instruction at a time (additions in both operand orders, doublings,         *)
(* shifts, dead and repeated values), random programs with and without dead    *)
(* values, decompiled programs, search results, scripts.  The real allocator   *)
(* names their operands; the register machine runs the result with the output   *)
(* register distinct from and aliased to the input register.                    *)
(***************************************************************************)
EXTENDS IRSem, ProgGen, ScriptGen, Targets

CONSTANTS Seed, InsLen, PlainLen, TightLen, Rounds, PerRound, MaxOps, SearchRuns, LongRuns

VARIABLE st
vars == st

Configs == << [in |-> <<120>>, out |-> <<122>>, format |-> <<116, 37, 100>>],                     \* x z t%d
              [in |-> <<97>>, out |-> <<98>>, format |-> <<116, 109, 112, 37, 100, 95>>],         \* a b tmp%d_
              [in |-> <<120>>, out |-> <<122>>, format |-> <<122, 37, 100>>],                     \* x z z%d
              [in |-> <<122>>, out |-> <<120>>, format |-> <<120, 37, 48, 51, 100>>],             \* z x x%03d
              [in |-> <<105, 110>>, out |-> <<111>>, format |-> <<37, 120>>],                     \* in o %x
              [in |-> <<116>>, out |-> <<117>>, format |-> <<116, 37, 100>>] >>                   \* t u t%d

SourceIns(a) ==
    CASE "ins" \in DOMAIN a -> a.ins
      [] "src" \in DOMAIN a -> EvalScript(ParseScript(a.src).ss).ins
      [] OTHER -> DecompileDesign(a.ops)
Id(r) == r
(* the value of the last element: the program on one register per element *)
ResultOf(ins) == Get(RunCode([k \in 1..Len(ins) |-> [op |-> ins[k].op, z |-> ins[k].out, x |-> ins[k].x, y |-> ins[k].y, s |-> ins[k].s]],
                             <<<<0, BOne>>>>, Id).regs, ins[Len(ins)].out)
JudgeAlloc(a, r) ==
    r.st = "ok" /\ r.v.ok /\
    LET src == SourceIns(a)
        got == r.v.ins
        n == Len(got)
        code == [k \in 1..n |-> [op |-> got[k].op, z |-> got[k].on, x |-> got[k].xn, y |-> got[k].yn, s |-> got[k].s]]
        want == ResultOf(src)
        start == <<<<a.in, BOne>>>>
        fold(reg) == IF reg = a.out THEN a.in ELSE reg
        plain == RunCode(code, start, Id)
        alias == RunCode(code, start, fold)
        used == UNION {{code[k].z, code[k].x, code[k].y} : k \in 1..n}
    IN /\ n > 0
       /\ \A k \in 1..n : code[k].z # <<>> /\ code[k].x # <<>> /\ code[k].y # <<>>
       /\ plain.ok /\ Get(plain.regs, a.out) = want /\ Get(plain.regs, a.in) = BOne
       /\ \A k \in 1..n : code[k].z # a.in
       /\ alias.ok /\ Get(alias.regs, a.in) = want
       /\ r.v.runs[1] = [ok |-> TRUE, out |-> want, in |-> BOne] /\ r.v.runs[2].ok /\ r.v.runs[2].out = want
       /\ NoRepeat(r.v.tmp)
       /\ Range(r.v.tmp) = used \ {a.in, a.out}

Allocated(a, r) == IF "ins" \in DOMAIN a THEN a.ins ELSE r.v.ins
JudgeTemps(a, r) == r.st = "ok" /\ r.v.ok /\ Len(r.v.tmp) <= PeakLive(Allocated(a, r))

Check(tag, a) ==
    LET r == Call("alloc", a) IN
    CASE tag = "alloc" -> /\ Report(tag, a, JudgeAlloc(a, r))
                          /\ Tally("cov:dead", ~NoDead(r.v.ins)) /\ Tally("cov:temps", r.v.tmp # <<>>)
                          /\ (Len(r.v.ins) <= 100 => Tally("info:design-count", Len(r.v.tmp) = DesignTemps(r.v.ins)))
      [] tag = "temps" -> (r.st = "ok" /\ r.v.ok /\ ~NoDead(Allocated(a, r))) \/
                          (/\ Report(tag, a, JudgeTemps(a, r))
                           /\ Tally("cov:wide", Len(r.v.tmp) > 12) /\ Tally("cov:tight", Len(r.v.tmp) = PeakLive(r.v.ins)) /\ Tally("cov:temps", r.v.tmp # <<>>))

(* ---------- behaviours ---------- *)
Get2(map, v) == map[SelectInSeq(map, LAMBDA e : e[1] = v)][2]
LastOut(ins) == IF ins = <<>> THEN 0 ELSE ins[Len(ins)].out
Grow(ins, op, x, y, s) == Append(ins, Ins(op, x, y, s, LastOut(ins) + (IF op = "shl" THEN s ELSE 1)))
(* random instructions over the outputs so far; then, optionally, additions    *)
(* that read every unread value                                                  *)
RandIns(key, n) ==
    FoldLeft(LAMBDA ins, k :
        LET outs == <<0>> \o [j \in 1..Len(ins) |-> ins[j].out]
            any(t) == outs[1 + PR(<<key, k>>, t, Len(outs))]
            near(t) == outs[Len(outs) - PR(<<key, k>>, t, IF Len(outs) < 3 THEN Len(outs) ELSE 3)]
            kd == PR(<<key, k>>, "op", 6)
            loc == PR(key, "local", 3)
            x == IF loc = 0 THEN any("x") ELSE near("x")
            y == IF loc = 1 THEN near("y") ELSE any("y")
        IN IF kd < 3 THEN Grow(ins, "add", x, y, 0) ELSE IF kd = 3 THEN Grow(ins, "dbl", x, x, 1) ELSE Grow(ins, "shl", x, x, 1 + PR(<<key, k>>, "s", 5)),
      <<>>, [k \in 1..n |-> k])
Unread(ins) == SelectSeq([j \in 1..(Len(ins)-1) |-> ins[j].out], LAMBDA v : \A k \in 1..Len(ins) : ins[k].x # v /\ ins[k].y # v)
RECURSIVE ReadTo(_, _, _)
ReadTo(ins, key, left) ==
    LET u == Unread(ins) IN
    IF Len(u) <= left THEN ins ELSE LET v == u[1 + PR(<<key, Len(ins)>>, "u", Len(u))] IN
    ReadTo(IF PR(<<key, Len(ins)>>, "flip", 2) = 0 THEN Grow(ins, "add", v, LastOut(ins), 0) ELSE Grow(ins, "add", LastOut(ins), v, 0), key, left)
ReadAll(ins, key) == ReadTo(ins, key, 0)
(* many values alive at once, summed up, and again: variables become free      *)
(* together and are needed again together                                        *)
Burst(ins, key, w) ==
    LET base == LastOut(ins) IN
    FoldLeft(LAMBDA acc, k :
        LET kd == PR(<<key, k>>, "op", 4) IN
        IF kd = 0 THEN Grow(acc, "add", base, LastOut(acc), 0)
        ELSE IF kd = 1 THEN Grow(acc, "add", 0, base, 0)
        ELSE Grow(acc, "shl", base, base, 1 + PR(<<key, k>>, "s", 5)), ins, [k \in 1..w |-> k])
WideIns(key) ==
    ReadAll(FoldLeft(LAMBDA ins, g :
        LET w == 2 + PR(<<key, g>>, "w", 24) IN
        ReadTo(Burst(ins, <<key, g>>, w), <<key, g, "r">>, IF PR(<<key, g>>, "keep", 2) = 0 THEN 0 ELSE PR(<<key, g>>, "left", w)),
      <<>>, [g \in 1..(2 + PR(key, "groups", 3)) |-> g]), key)

(* hundreds of instructions in which every value is read, and hundreds of values *)
(* alive at once                                                                   *)
LongIns(key) ==
    LET n == IF key[3] = 2 THEN 1030 ELSE <<130, 200, 255, 256, 257, 300>>[1 + PR(key, "n", 6)]
        style == PR(key, "style", 3)
    IN FoldLeft(LAMBDA ins, k :
           LET l == LastOut(ins)
               m == Len(ins)
               back == IF m = 0 THEN 0 ELSE IF style = 0 THEN ins[m - PR(<<key, k>>, "b", IF m < 9 THEN m ELSE 9)].out
                       ELSE IF PR(<<key, k>>, "far", 12) = 0 THEN ins[1 + PR(<<key, k>>, "b", m)].out ELSE ins[m - PR(<<key, k>>, "b", IF m < 3 THEN m ELSE 3)].out
               kd == PR(<<key, k>>, "op", 8)
           IN IF kd = 0 THEN Grow(ins, "dbl", l, l, 1)
              ELSE IF kd = 1 THEN Grow(ins, "shl", l, l, 1 + PR(<<key, k>>, "s", IF style = 2 THEN 200 ELSE 3))
              ELSE IF kd = 2 THEN Grow(ins, "add", 0, l, 0)
              ELSE IF kd < 5 THEN Grow(ins, "add", back, l, 0) ELSE Grow(ins, "add", l, back, 0), <<>>, [k \in 1..n |-> k])
PressIns(key) ==
    LET w == <<64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 270>>[1 + PR(key, "w", 11)]
        first == FoldLeft(LAMBDA ins, k : IF PR(<<key, k>>, "op", 3) = 0 THEN Grow(ins, "add", LastOut(ins), 0, 0) ELSE Grow(ins, "shl", 0, 0, 1 + PR(<<key, k>>, "s", 3)),
                          <<>>, [k \in 1..w |-> k])
        outs == TLCEval([k \in 1..w |-> first[k].out])
        fwd == PR(key, "fwd", 3)
        half == IF PR(key, "half", 2) = 0 THEN w ELSE w \div 2
        sum(ins, from, to) == FoldLeft(LAMBDA acc, k : LET v == outs[IF fwd = 0 THEN from + to - k ELSE k] IN
                                          IF fwd = 2 THEN Grow(acc, "add", v, LastOut(acc), 0) ELSE Grow(acc, "add", LastOut(acc), v, 0),
                                       ins, [k \in 1..(to - from + 1) |-> from + k - 1])
        mid == sum(first, 1, half)
        again == FoldLeft(LAMBDA acc, k : Grow(acc, "shl", LastOut(acc), LastOut(acc), 1), mid, [k \in 1..5 |-> k])
    IN IF half = w THEN again ELSE sum(again, half + 1, w)
Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ st' = [t |-> "ins", ins |-> <<>>]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..LongRuns : st' = [t |-> "long", b |-> b]
    \/ \E b \in 1..SearchRuns : st' = [t |-> "search", b |-> b]
Ordered == Len(st.ins) < PlainLen
InsStep == st.t = "ins" /\ Len(st.ins) < InsLen /\
    LET O == Outputs(st.ins) IN
    \/ \E x, y \in O : (Ordered \/ x <= y) /\ st' = [t |-> "ins", ins |-> Grow(st.ins, "add", x, y, 0)]
    \/ \E x \in O : st' = [t |-> "ins", ins |-> Grow(st.ins, "dbl", x, x, 1)]
    \/ \E x \in O : \E s \in (IF Ordered THEN {1, 2} ELSE {2}) : st' = [t |-> "ins", ins |-> Grow(st.ins, "shl", x, x, s)]
(* longer programs in which every value is read: a program of n instructions    *)
(* is grown only while the remaining instructions can still read what is unread *)
TightStep == st.t \in {"ins", "tight"} /\ Len(st.ins) >= PlainLen /\ Len(st.ins) < TightLen /\
    LET O == Outputs(st.ins)
        keep(ins) == Len(Unread(ins)) <= TightLen - Len(ins)
    IN \/ \E x, y \in O : x <= y /\
            LET g == IF PR(<<st.ins, x, y>>, "flip", 2) = 0 THEN Grow(st.ins, "add", x, y, 0) ELSE Grow(st.ins, "add", y, x, 0)
            IN keep(g) /\ st' = [t |-> "tight", ins |-> g]
       \/ \E x \in O : LET g == Grow(st.ins, "dbl", x, x, 1) IN keep(g) /\ st' = [t |-> "tight", ins |-> g]
Config(key) == Configs[1 + PR(key, "cfg", Len(Configs))]
CaseOf(cfg, more) == more @@ [in |-> cfg.in, out |-> cfg.out, format |-> cfg.format]
LongCase(b) ==
    LET key == <<Seed, "long", b>>
    IN ("pre" :> (IF b % 4 = 0 THEN 6 ELSE 0)) @@ CaseOf(Config(key), [ins |-> IF b % 2 = 0 THEN LongIns(key) ELSE PressIns(key), shared |-> PR(key, "sh", 2) = 0])
PickLong == st.t = "long" /\ st' = [t |-> "case", a |-> LongCase(st.b)]

(* the program may have been through other passes, an earlier allocation        *)
(* included; evaluating it is left out where shifts are large                     *)
Before(key, a) == [a EXCEPT !.pre = LET m == PR(key, "pre", 14) IN IF m \in {1, 2, 5, 6} \/ (m \in {3, 4} /\ "ins" \notin DOMAIN a) THEN m ELSE 0]
(* shift amounts far beyond a byte and a 16-bit word *)
BigShifts(ins, key) ==
    LET at == 1 + PR(key, "bs", Len(ins))
        amount(k) == IF k = at THEN <<255, 256, 257, 1000, 65535, 65536, 65537, 70001>>[1 + PR(key, "bsa", 8)]
                     ELSE IF PR(<<key, k>>, "bsk", 6) = 0 THEN 200 + PR(<<key, k>>, "bsv", 200) ELSE 0
    IN \* the same program with some shifts longer: indices move along
       FoldLeft(LAMBDA acc, k :
          LET e == ins[k]
              m(v) == Get2(acc.map, v)
              s == IF e.op = "shl" /\ amount(k) > 0 THEN amount(k) ELSE e.s
              g == Grow(acc.ins, e.op, m(e.x), m(e.y), s)
          IN [ins |-> g, map |-> Append(acc.map, <<e.out, LastOut(g)>>)],
        [ins |-> <<>>, map |-> <<<<0, 0>>>>], [k \in 1..Len(ins) |-> k]).ins
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        k == PR(key, "how", 8)
        n == 3 + PR(key, "n", MaxOps)
        cfg == Config(key)
        prog == RandProg(key, n, PR(key, "style", 6))
        script == RandScriptFrom(key, 1 + PR(key, "ns", 8), 3, PlainNames)
        case == CASE k = 0 -> CaseOf(cfg, [ins |-> RandIns(key, n), shared |-> PR(key, "sh", 2) = 0])
             [] k \in {1, 2} -> CaseOf(cfg, [ins |-> ReadAll(RandIns(key, n), key), shared |-> PR(key, "sh", 2) = 0])
             [] k = 3 -> CaseOf(cfg, [ops |-> prog])
             [] k = 4 -> CaseOf(cfg, [ins |-> ReadAll(DecompileDesign(prog), key), shared |-> PR(key, "sh", 2) = 0])
             [] k = 6 -> CaseOf(cfg, [ins |-> WideIns(key), shared |-> PR(key, "sh", 2) = 0])
             [] k = 5 -> CaseOf(cfg, [src |-> CanonScript(script, 1)])
             [] k = 7 -> CaseOf(cfg, [ins |-> BigShifts(ReadAll(RandIns(key, 2 + PR(key, "bn", 8)), key), key), shared |-> PR(key, "sh", 2) = 0])
    IN st' = [t |-> "case", a |-> Before(key, ("pre" :> 0) @@ case)]
Next == PickLong \/ Root \/ InsStep \/ TightStep \/ PickRnd
Spec == Init /\ [][Next]_vars

(* scripts are used when they mean a well-formed, non-empty program *)
Usable(a) ==
    CASE "src" \in DOMAIN a -> LET g == ParseScript(a.src)
                                   e == EvalScript(g.ss)
                               IN g.ok /\ e.ok /\ ~e.loose /\ e.ins # <<>> /\ WellFormed(e.ins)
      [] "ops" \in DOMAIN a -> a.ops # <<>>
      [] OTHER -> a.ins # <<>>
SearchCase(b) == LET key == <<Seed, "search", b>>
                     r == Call("searchprog", <<IF b <= 100 THEN BFromInt(b) ELSE Target(key, 8 + PR(key, "bits", 300)), PR(key, "alg", 10000)>>)
                 IN CaseOf(Config(key), [ops |-> IF r.st = "ok" THEN r.v ELSE <<>>])
Cases == CASE st.t = "ins" -> LET c == Config(<<Seed, st.ins>>) IN {CaseOf(c, [ins |-> st.ins, shared |-> b, pre |-> PR(<<Seed, st.ins>>, "pre", 7)]) : b \in BOOLEAN}
           [] st.t = "tight" -> IF Unread(st.ins) # <<>> THEN {} ELSE {CaseOf(Config(<<Seed, st.ins>>), [ins |-> st.ins, shared |-> PR(<<Seed, st.ins>>, "sh", 2) = 0])}
           [] st.t = "case" -> {st.a}
           [] st.t = "search" -> {SearchCase(st.b)}
           [] OTHER -> {}
InvC05 == \A a \in Cases : Usable(a) => Check("alloc", a)
InvC17 == \A a \in Cases : Usable(a) => Check("temps", a)

(* the design computes the chain in both modes with at most the peak number of  *)
(* live values as temporaries, even with dead values                              *)
ModelInv ==
    st.t \in {"ins", "tight"} /\ st.ins # <<>> =>
      LET ins == st.ins
          n == Len(ins)
          stg == TLCEval(Storage(ins))
          code == [k \in 1..n |-> [op |-> ins[k].op, z |-> stg[ins[k].out], x |-> stg[ins[k].x], y |-> stg[ins[k].y], s |-> ins[k].s]]
          want == LET c == EvalProg(Unroll(ins).p) IN c[Len(c)]
          fold(reg) == IF reg = 0 - 2 THEN 0 - 1 ELSE reg
          plain == RunCode(code, <<<<0 - 1, BOne>>>>, Id)
          alias == RunCode(code, <<<<0 - 1, BOne>>>>, fold)
      IN /\ Unroll(ins).ok /\ WellFormed(ins)
         /\ ResultOf(ins) = want
         /\ plain.ok /\ Get(plain.regs, 0 - 2) = want /\ Get(plain.regs, 0 - 1) = BOne
         /\ alias.ok /\ Get(alias.regs, 0 - 1) = want
         /\ PeakLive(ins) = PeakLiveDef(ins)
         /\ NoDead(ins) => DesignTemps(ins) <= PeakLive(ins)
=============================================================================
