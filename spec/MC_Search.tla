------------------------------ MODULE MC_Search ------------------------------
(***************************************************************************)
(* C14.  A state is one use of the search command: an expression, the cost    *)
(* weights, the concurrency settings of its runs.  The command of the working  *)
(* tree runs once per setting; all runs print the same bytes; the printed       *)
(* script is evaluated by the specification; its weighted cost is compared with  *)
(* the printed cost and with every result the ensemble produces; the eval, fmt    *)
(* and gen commands read it.                                                       *)
(***************************************************************************)
EXTENDS IRSem, Targets, ScriptGen

Calc == INSTANCE CalcDef

CONSTANTS Seed, SmallTo, Rounds, PerRound, MaxBits, AllP

VARIABLE st
vars == st

(* ---------- command lines ---------- *)
TSearch == <<115, 101, 97, 114, 99, 104>>   TEval == <<101, 118, 97, 108>>
TFmt == <<102, 109, 116>>                  TMinusB == <<45, 98>>
TMinusP == <<45, 112>>                     TMinusV == <<45, 118>>
TMinusAdd == <<45, 97, 100, 100>>          TMinusDouble == <<45, 100, 111, 117, 98, 108, 101>>
TGen == <<103, 101, 110>>                  TType == <<45, 116, 121, 112, 101>>
TListing == <<108, 105, 115, 116, 105, 110, 103>>  TChain == <<99, 104, 97, 105, 110>>
TOps == <<111, 112, 115>>                  TScript == <<115, 99, 114, 105, 112, 116>>

(* weights: text, and the value m / 10^k; dyadic ones are exact in floating point *)
Wt(t, m, k, dy) == [t |-> t, m |-> m, k |-> k, dy |-> dy]
Weights == << Wt(<<49>>, 1, 0, TRUE),                              \* 1
              Wt(<<50>>, 2, 0, TRUE),                              \* 2
              Wt(<<48, 46, 53>>, 5, 1, TRUE),                      \* 0.5
              Wt(<<51>>, 3, 0, TRUE),
              Wt(<<48, 46, 50, 53>>, 25, 2, TRUE),                 \* 0.25
              Wt(<<49, 46, 53>>, 15, 1, TRUE),                     \* 1.5
              Wt(<<49, 48>>, 10, 0, TRUE),
              Wt(<<48, 46, 49>>, 1, 1, FALSE),                     \* 0.1
              Wt(<<49, 101, 51>>, 1000, 0, TRUE),                  \* 1e3
              Wt(<<48, 46, 48, 48, 49>>, 1, 3, FALSE),             \* 0.001
              Wt(<<49, 46, 48, 48, 55>>, 1007, 3, FALSE),          \* 1.007
              Wt(<<57, 57, 57, 57, 57, 57>>, 999999, 0, TRUE),
              Wt(<<46, 55, 53>>, 75, 2, TRUE),                     \* .75
              Wt(<<49, 101, 45, 55>>, 1, 7, FALSE),                \* 1e-7
              Wt(<<48, 46, 57, 57, 57, 57, 57>>, 99999, 5, FALSE)  \* 0.99999
           >>
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN BOne ELSE BMul(BFromInt(10), Pow10(k-1))
(* the cost of d doublings and a additions, times 10^10 *)
Scaled(w, n) == BMul(BMul(BFromInt(w.m), Pow10(10 - w.k)), BFromInt(n))
Cost(a, d, n) == BAdd(Scaled(a.dw, d), Scaled(a.aw, n))
Le(x, y) == ~BLt(y, x)
Rel == Pow10(12)
(* x <= y up to one part in 10^12 *)
AboutLe(x, y) == Le(BMul(x, Rel), BAdd(BMul(y, Rel), y))

Args(a, p) ==
    <<TSearch>> \o (IF p = 0 THEN <<>> ELSE <<TMinusP, DecText(BFromInt(p))>>)
    \o (IF a.dft THEN <<>> ELSE <<TMinusAdd, a.aw.t, TMinusDouble, a.dw.t>>)
    \o <<a.expr>>
Want(a) == LET s == Calc!Scan(a.expr) IN Calc!Value(s.lits, s.ops).v[2]
Doubles(p) == Cardinality({k \in 1..Len(p) : p[k][1] = p[k][2]})
Command(args, input) == Call("cli", [args |-> args, in |-> input])
Good(r) == r.st = "ok" /\ r.v.status = 0

JudgeEvalOut(r, n, d, adds, total) ==
    LET o == Call("evalout", r.v.out) IN
    /\ Good(r) /\ o.st = "ok"
    /\ o.v.total = total /\ o.v.doubles = d /\ o.v.adds = adds
    /\ Len(o.v.ops) = total
    /\ total > 0 => o.v.ops[total][4] = n
    /\ total = 0 => n = BOne

JudgeSearch(a) ==
    LET runs == TLCEval([i \in 1..Len(a.ps) |-> Command(Args(a, a.ps[i]), <<>>)])
        r == runs[1]
        n == Want(a)
    IN /\ Good(r)
       /\ (Len(a.expr) % 3 = 0) =>                              \* the verbose mode reports the same
            LET v == Command(<<TSearch, TMinusV>> \o Tail(Args(a, a.ps[1])), <<>>)
                rv == Call("report", v.v.err)
                r1 == Call("report", r.v.err)
            IN /\ Good(v) /\ v.v.out = r.v.out
               /\ rv.st = "ok" /\ rv.v.ok /\ rv.v.least /\ rv.v.text = r1.v.text
               /\ Tally("cov:verbose", TRUE)
       /\ \A i \in 2..Len(runs) : Good(runs[i]) /\ runs[i].v.out = r.v.out /\ runs[i].v.err = r.v.err
       /\ LET out == r.v.out
              g == ParseScript(out)
              e == EvalScript(g.ss)
              d == Doubles(e.p)
              adds == Len(e.p) - d
              rep == Call("report", r.v.err)
              cnt == Call("counts", n)
              cost == Cost(a, d, adds)                      \* times 10^10
              shown == BMul(rep.v.num, Pow10(10))           \* times den, times 10^10
              exact == BMul(cost, rep.v.den)
          IN /\ g.ok /\ e.ok /\ ~e.loose /\ e.c[Len(e.c)] = n
             /\ JudgeEvalOut(Command(<<TEval>>, out), n, d, adds, Len(e.p))
             /\ rep.st = "ok" /\ rep.v.ok
             /\ AboutLe(shown, exact) /\ AboutLe(exact, shown)
             /\ (a.aw.dy /\ a.dw.dy) => shown = exact
             /\ cnt.st = "ok" /\ cnt.v.ok
             /\ \A k \in 1..Len(cnt.v.counts) : AboutLe(cost, Cost(a, cnt.v.counts[k][1], cnt.v.counts[k][2]))
             /\ Good(Command(<<TFmt>>, out)) /\ Good(Command(<<TFmt, TMinusB>>, out))
             /\ n # BOne => \A t \in {TListing, TChain, TOps, TScript} : Good(Command(<<TGen, TType, t>>, out))
             /\ Tally("cov:choice", \E k \in 1..Len(cnt.v.counts) : cnt.v.counts[k] # <<d, adds>>)
             /\ Tally("cov:tradeoff", \E k \in 1..Len(cnt.v.counts) : cnt.v.counts[k][1] + cnt.v.counts[k][2] <= d + adds /\ cnt.v.counts[k] # <<d, adds>>)

(* beyond the range of floating point the reported cost is infinite *)
Huge == <<49, 101, 51, 48, 56>>        \* 1e308
JudgeHuge(x) ==
    LET r == Command(<<TSearch, TMinusAdd, Huge, TMinusDouble, Huge, <<50, 51>>>>, <<>>)
        rep == Call("report", r.v.err)
    IN Good(r) /\ Tally("known:cost-overflow", ~rep.v.ok)

Check(tag, a) ==
    CASE tag = "search" -> Report(tag, a, JudgeSearch(a))
      [] tag = "huge" -> Report(tag, a, JudgeHuge(a))

(* ---------- expressions ---------- *)
Sp(key, name) == IF Rand(<<key, name>>, 4) = 0 THEN <<32>> ELSE <<>>
SmallSpell(n, k) ==
    LET x == BFromInt(n) IN
    CASE k = 0 -> Calc!Dec(x)
      [] k = 1 -> <<48, 120>> \o Calc!Hex(x)
      [] k = 2 -> <<48, 98>> \o Calc!Bin(x)
      [] k = 3 -> Calc!Dec(BAdd(x, BFromInt(7))) \o <<32, 45, 32, 55>>
      [] k = 4 -> Calc!Dec(BMul(x, BFromInt(3))) \o <<47, 51>>
      [] OTHER -> <<32>> \o Calc!Dec(BSub(x, BOne)) \o <<43, 49, 32>>
BigSpell(key, bits) ==
    LET k == Rand(<<key, "form">>, 6)
        m == BAdd(BOne, Target(key, bits))
        pow(e) == <<50, 94>> \o Calc!Dec(BFromInt(e))
        hi == 6 + Rand(<<key, "hi">>, bits - 6)
        lo == 1 + Rand(<<key, "lo">>, hi - 3)
        c == BFromInt(1 + Rand(<<key, "c">>, 30))
    IN CASE k = 0 -> Calc!Dec(m)
         [] k = 1 -> <<48, 120>> \o Calc!Hex(m)
         [] k = 2 -> pow(hi) \o Sp(key, 1) \o <<45>> \o Sp(key, 2) \o Calc!Dec(c)
         [] k = 3 -> pow(hi) \o Sp(key, 1) \o <<45>> \o Sp(key, 2) \o pow(lo) \o Sp(key, 3) \o <<43>> \o Sp(key, 4) \o Calc!Dec(c)
         [] k = 4 -> pow(hi) \o <<32, 45, 32>> \o pow(lo) \o <<32, 45, 32, 49>>
         [] k = 5 -> <<48, 120>> \o Calc!Hex(m) \o <<32, 45, 32, 48, 120>> \o <<49>>
Valid(expr) == LET s == Calc!Scan(expr)
                   v == Calc!Value(s.lits, s.ops)
               IN s.ok /\ ~s.unspec /\ v.k = "ok" /\ v.v[1] > 0 /\ BBitLen(v.v[2]) <= 620

Ps == <<1, 2, 3, 16, 64, 0, 5>>
PickPs(key) ==
    IF AllP = 1 THEN <<1, 2, 3, 16, 64, 0, 64>>
    ELSE LET i == Rand(<<key, "p">>, 7) IN <<Ps[1 + i], Ps[1 + ((i + 1 + Rand(<<key, "q">>, 6)) % 7)]>>
Case(key, expr) ==
    LET dft == Rand(<<key, "dft">>, 4) = 0
        near == Rand(<<key, "near">>, 3) = 0
        w(t) == Weights[1 + Rand(<<key, t>>, IF near THEN 6 ELSE Len(Weights))]
    IN [expr |-> expr, dft |-> dft, aw |-> IF dft THEN Weights[1] ELSE w("a"), dw |-> IF dft THEN Weights[1] ELSE w("d"), ps |-> PickPs(key)]

Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ \E n \in 1..SmallTo : \E k \in 0..(IF n < 12 THEN 5 ELSE 0) : st' = [t |-> "small", n |-> n, k |-> IF n < 12 THEN k ELSE n % 6]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ st' = [t |-> "huge"]
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound : st' = [t |-> "case", key |-> <<Seed, st.b, i>>]
Next == Root \/ PickRnd
Spec == Init /\ [][Next]_vars

Exprs == CASE st.t = "small" -> {SmallSpell(st.n, st.k)}
           [] st.t = "case" -> {BigSpell(st.key, 10 + Rand(<<st.key, "bits">>, MaxBits - 10))}
           [] OTHER -> {}
ImplInv == /\ \A x \in Exprs : Valid(x) => Check("search", Case(<<Seed, st>>, x))
           /\ st.t = "huge" => Check("huge", 0)
=============================================================================
