------------------------------- MODULE MC_Crash -------------------------------
(***************************************************************************)
(* C15.  States: script texts (degenerate ones, all short token sequences,    *)
(* edited and random ones, long and deep ones), expression texts, and command  *)
(* lines.  Each goes to the real entry points and to the real command; every    *)
(* behaviour must end in a result or a diagnostic: an exit status of 0, 1 or 2,  *)
(* something printed, no trace of a runtime panic or fatal error, within a time   *)
(* limit.  The transition system of the tool's stages, below, says which ends a    *)
(* command may have.                                                                *)
(***************************************************************************)
EXTENDS ScriptGen

Calc == INSTANCE CalcDef

CONSTANTS Seed, TokLen, CoreLen, ExprLen, Rounds, PerRound, CliScripts, CliExprs, CliLines, DeepTo, LongTo

VARIABLE st
vars == st

(* ---------- texts ---------- *)
TSearch == <<115, 101, 97, 114, 99, 104>>   TEval == <<101, 118, 97, 108>>
TFmt == <<102, 109, 116>>                  TMinusB == <<45, 98>>
TGen == <<103, 101, 110>>                  TType == <<45, 116, 121, 112, 101>>
TMinusP == <<45, 112>>                     TMinusV == <<45, 118>>
TMinusAdd == <<45, 97, 100, 100>>          TMinusDouble == <<45, 100, 111, 117, 98, 108, 101>>
TListing == <<108, 105, 115, 116, 105, 110, 103>>  TChain == <<99, 104, 97, 105, 110>>
TOps == <<111, 112, 115>>                  TScript == <<115, 99, 114, 105, 112, 116>>
TInput == <<105, 110, 112, 117, 116>>      TOut == <<45, 111, 117, 116>>   TTmpl == <<45, 116, 109, 112, 108>>
THelp == <<104, 101, 108, 112>>            TCite == <<99, 105, 116, 101>>  TFlags == <<102, 108, 97, 103, 115>>
TCommands == <<99, 111, 109, 109, 97, 110, 100, 115>>   TVersion == <<118, 101, 114, 115, 105, 111, 110>>
TNaN == <<78, 97, 78>>                     TInf == <<73, 110, 102>>

(* texts by tokens: the letters of s stand for the pieces of a script *)
P(i) == << <<49>>, <<50>>, <<48>>, <<42>>, <<43>>, <<60, 60>>, <<40>>, <<41>>, <<91>>, <<93>>, <<61>>, <<10>>, <<32>>,
           NX, TDbl \o <<32>>, <<32>> \o TShl \o <<32>>, <<32>> \o TAdd \o <<32>>, TReturn \o <<32>>, <<57>> >>[i]
Glue(s) == FoldLeft(LAMBDA acc, i : acc \o P(i), <<>>, s)
Huge64 == DecText(BSub(BPow2(64), BOne))     Huge65 == DecText(BPow2(64))
Huge63 == DecText(BPow2(63))                 Huge200 == DecText(BPow2(200))
Idx(t) == <<91>> \o t \o <<93>>
NL == <<10>>
Eq(n, e) == n \o <<61>> \o e \o NL
Degenerate == <<
    <<>>, NL, NL \o NL, <<32>>, <<49>>, <<49>> \o NL, TReturn, TReturn \o <<32, 49>>, TReturn \o <<32, 49>> \o NL, Eq(NX, <<49>>), Eq(NX, <<49>>) \o <<49>>,
    Eq(NX, <<49>>) \o NX, Eq(NX, <<49>>) \o Eq(NX, <<49>>) \o NX, Eq(NX, NX), Eq(NX, NX) \o NX, NX, TReturn \o <<32>> \o NX,
    Idx(<<48>>), Idx(<<49>>), Idx(<<53>>), Idx(Huge63), Idx(Huge64), Idx(Huge65), Idx(Huge200), Idx(<<45, 49>>), Idx(<<>>), Idx(<<48, 120>>),
    Idx(<<49>>) \o <<43>> \o Idx(<<49>>), Idx(<<48>>) \o <<43>> \o Idx(<<49>>), <<50, 42>> \o Idx(Huge64), Idx(Huge64) \o <<60, 60, 49>>, Idx(Huge63) \o <<43, 49>>,
    Eq(NX, Idx(<<51>>)) \o <<49, 60, 60, 51>> \o NL, Eq(NX, Idx(<<51>>)) \o Eq(NY, <<49, 60, 60, 51>>) \o NX \o <<43, 49>>,
    <<49, 60, 60, 48>>, <<49, 60, 60, 48, 48>>, <<49, 60, 60, 48>> \o NL \o <<49>>, Eq(NX, <<49, 60, 60, 48>>) \o NX, <<40, 49, 43, 49, 41, 60, 60, 48>>, <<50, 42, 40, 49, 60, 60, 48, 41>>, <<40, 49, 60, 60, 48, 41, 43, 49>>,
    <<49, 60, 60, 49, 60, 60, 49>>, <<49, 60, 60>>, <<60, 60, 49>>, <<49, 60, 60>> \o Huge65, <<49, 60, 60>> \o Huge200, <<49, 60, 60, 120>>, <<49, 60, 60, 45, 49>>,
    <<49, 43>>, <<43, 49>>, <<43>>, <<40>>, <<41>>, <<40, 41>>, <<40, 49>>, <<49, 41>>, <<40, 49, 41>>, <<50, 42>>, <<50>>, <<50, 42, 50>>, <<50, 42, 49>>, TDbl, TDbl \o <<49>>, TDbl \o <<32, 49>>,
    TShl, TAdd, <<49>> \o TShl, <<49, 32>> \o TShl \o <<32, 48>>, <<49, 32>> \o TAdd \o <<32, 49>>, <<61>>, <<61, 49>>, NX \o <<61>>, NX \o <<61>> \o NL \o <<49>>,
    TReturn \o <<61, 49>> \o NL, TReturn \o <<32>> \o TReturn, Eq(TReturn, <<49>>) \o TReturn, Eq(TReturn, <<49>>) \o TReturn \o <<32>> \o TReturn,
    <<49>> \o NL \o <<49>>, TReturn \o <<32, 49>> \o NL \o TReturn \o <<32, 49>> \o NL, Eq(NX, <<49>>) \o TReturn \o <<32, 49>> \o NL \o Eq(NX, <<49>>),
    <<0>>, <<49, 0>>, <<255>>, <<239, 187, 191, 49>>, <<49, 13, 10>>, <<49, 10, 13>>, <<13>>, <<9>>, <<195, 40>>, <<237, 160, 128>>, <<226, 128, 168>>,
    Eq(NX, <<49, 43, 49>>) \o <<50, 42>> \o NX, Eq(NX, <<49, 60, 60, 51>>) \o Idx(<<49>>) \o <<43>> \o Idx(<<50>>), Eq(NX, <<49, 60, 60, 51>>) \o Idx(<<50>>), Eq(NX, <<49, 60, 60, 51>>) \o Idx(<<51>>) \o <<60, 60, 50>>,
    Eq(NX, <<49, 43, 49>>) \o Eq(NY, NX) \o NY, Eq(NX, <<49, 43, 49>>) \o Eq(NX, <<49>>) \o NX, Eq(NX, <<49, 43, 49>>) \o <<49>>, Eq(NX, <<49, 43, 49>>) \o TReturn \o <<32, 49>> >>

(* long texts: n repetitions of a piece between others *)
Repeat(p, n) == IF n = 0 THEN <<>> ELSE TLCEval([i \in 1..(n * Len(p)) |-> p[1 + ((i - 1) % Len(p))]])
DeepShapes == 14
Deep(k, n) ==
    CASE k = 1 -> Repeat(<<40>>, n) \o <<49>> \o Repeat(<<41>>, n)
      [] k = 2 -> Repeat(<<40>>, n)
      [] k = 3 -> <<49>> \o Repeat(<<43, 49>>, n \div 8)
      [] k = 4 -> Repeat(<<40, 49, 43>>, n \div 8) \o <<49>> \o Repeat(<<41>>, n \div 8)
      [] k = 5 -> Repeat(<<50, 42, 40>>, n \div 8) \o <<49>> \o Repeat(<<41>>, n \div 8)
      [] k = 6 -> Repeat(<<40>>, n \div 8) \o <<49>> \o Repeat(<<60, 60, 49, 41>>, n \div 8)
      [] k = 7 -> Repeat(<<120>>, n) \o <<61, 49, 10>> \o Repeat(<<120>>, n)
      [] k = 8 -> <<49>> \o Repeat(<<32>>, n)
      [] k = 9 -> Repeat(<<10>>, n) \o <<49>>
      [] k = 10 -> Idx(Repeat(<<48>>, n))
      [] k = 11 -> <<49, 60, 60>> \o Repeat(<<57>>, n)
      [] k = 12 -> Repeat(TDbl \o <<32>>, n \div 16) \o <<49>>
      [] k = 13 -> Repeat(<<40, 50, 42, 40>>, n) \o <<49>>
      [] k = 14 -> FoldLeft(LAMBDA s, i : s \o Eq(NX \o DecText(BFromInt(i)), IF i = 1 THEN <<49, 43, 49>> ELSE NX \o DecText(BFromInt(i - 1)) \o <<43, 49>>), <<>>, [i \in 1..(n \div 64) |-> i]) \o <<49>>

(* long expressions: n repetitions of a piece, each of which keeps the value small  *)
LongPieces == << <<49, 94>>, <<49, 43>>, <<49, 42>>, <<50, 45>>, <<49, 47>>, <<45, 49, 94>>, <<49, 43, 49, 42, 49, 94>>, <<49, 94, 49, 42, 49, 43>>, <<48, 43>>, <<48, 42>>, <<50, 43, 49, 94>>,
                 <<32>>, <<57>>, <<48>>, <<45>>, <<43>>, <<94>>, <<48, 120>>, <<40>>, <<50, 47>>, <<49, 94, 49, 47>>, <<45, 49, 42>> >>
LongEnds == << <<49>>, <<48>>, <<>>, <<45, 49>> >>
LongExpr(k, n, e) == Repeat(LongPieces[k], n) \o LongEnds[e]

(* ---------- what is a proper end ---------- *)
(* the stages of a command: read, understand, compute, print; at each stage it  *)
(* goes on, or reports and stops with status 1; unusable arguments end with 2     *)
Ended(r) == r.st = "ok" /\ ~r.v.crash /\ r.v.status \in {0, 1, 2}
Proper(r) == Ended(r) /\ (r.v.status = 0 => r.v.out # <<>> \/ r.v.err # <<>>) /\ (r.v.status # 0 => r.v.err # <<>>)
ScriptArgs == << <<TEval>>, <<TFmt>>, <<TFmt, TMinusB>>, <<TGen>>, <<TGen, TType, TChain>>, <<TGen, TType, TOps>>, <<TGen, TType, TScript>>, <<TGen, TType, TListing>> >>
(* with no text at all fmt has nothing to say *)
Run(a) == Call("cli", [args |-> a.args, in |-> a.in] @@ (IF "file" \in DOMAIN a THEN [file |-> a.file] ELSE [in |-> a.in]))
(* gen may write its result to a file *)
ToFile(a) == \E i \in 1..Len(a.args) : a.args[i] = TOut
JudgeScriptCli(a) == LET r == Run(a) IN Proper(r)
JudgeLine(a) == LET r == Run(a) IN Ended(r) /\ (r.v.status # 0 => r.v.err # <<>> \/ r.v.out # <<>>)

(* search: an expression with a positive value ends in a script, any other in   *)
(* a message                                                                      *)
ValueOfText(s) == LET c == Calc!Scan(s) IN IF c.unspec THEN [k |-> "unspec"] ELSE IF ~c.ok THEN [k |-> "err"] ELSE Calc!Value(c.lits, c.ops)
Feasible(s) == LET v == ValueOfText(s) IN v.k \in {"err", "div0", "unspec"} \/ (v.k = "ok" /\ (v.v[1] <= 0 \/ BBitLen(v.v[2]) <= 120))
JudgeSearch(a) ==
    LET r == Run([args |-> <<TSearch>> \o a.flags \o <<a.expr>>, in |-> <<>>])
        v == ValueOfText(a.expr)
    IN /\ Proper(r)
       /\ r.v.status = 0 => r.v.out # <<>>
       /\ (r.v.status = 0 /\ v.k # "unspec") => v.k = "ok" /\ v.v[1] > 0
       /\ (v.k = "ok" /\ v.v[1] > 0 /\ a.plain) => r.v.status = 0
       /\ Tally("cov:search-ok", r.v.status = 0) /\ Tally("cov:search-refused", r.v.status = 1) /\ Tally("cov:usage", r.v.status = 2)

Check(tag, a) ==
    CASE tag = "entries" -> LET r == Call(tag, a) IN
                Report(tag, a, r.st = "ok") /\ Tally("cov:parsed", r.v.parse) /\ Tally("cov:generated", r.v.gen > 0)
      [] tag = "expr" -> LET r == Call(tag, a) IN Report(tag, a, r.st = "ok" /\ (r.v.ok => r.v.value))
      [] tag = "script" -> Report(tag, a, JudgeScriptCli(a))
      [] tag = "line" -> Report(tag, a, JudgeLine(a))
      [] tag = "search" -> Report(tag, a, JudgeSearch(a))

(* ---------- behaviours ---------- *)
CoreToks == {1, 5, 6, 7, 8, 11, 12, 14}
ExprPieces == << <<48>>, <<49>>, <<51>>, <<45>>, <<43>>, <<42>>, <<47>>, <<94>>, <<32>>, <<48, 120>>, <<48, 98>>, <<97>>, <<40>>, <<50>> >>
Bytes(key, n) == [i \in 1..n |-> Rand(<<key, "byte", i>>, 256)]

PValues == << <<48>>, <<45, 49>>, <<49>>, <<50>>, <<54, 52>>, <<49, 48, 48, 48>>, DecText(BFromInt(1000000)), DecText(BSub(BPow2(63), BOne)), Huge63, <<45>> \o Huge63, <<120>>, <<>>, <<48, 120, 52>>, <<49, 46, 53>> >>
Costs == << <<49>>, <<48>>, <<45, 49>>, TNaN, TInf, <<45>> \o TInf, <<49, 101, 51, 48, 56>>, <<52, 46, 57, 101, 45, 51, 50, 52>>, <<49, 101, 57, 57, 57>>, <<120>>, <<>>, <<45, 48>>, <<48, 46, 51>>, <<48, 120, 49, 112, 45, 50>> >>
Flags(key) ==
    (IF Rand(<<key, "fp">>, 2) = 0 THEN <<>> ELSE <<TMinusP, Pick(key, "p", PValues)>>)
    \o (IF Rand(<<key, "fa">>, 2) = 0 THEN <<>> ELSE <<TMinusAdd, Pick(key, "a", Costs)>>)
    \o (IF Rand(<<key, "fd">>, 2) = 0 THEN <<>> ELSE <<TMinusDouble, Pick(key, "d", Costs)>>)
    \o (IF Rand(<<key, "fv">>, 4) = 0 THEN <<TMinusV>> ELSE <<>>)
PlainFlags(key) == Rand(<<key, "plain">>, 3) = 0

T2(a, b) == a \o b
Exprs == << <<48>>, <<49>>, <<50>>, <<51>>, <<45, 49>>, <<45, 48>>, <<>>, <<32>>, <<49, 47, 48>>, <<48, 47, 48>>, <<48, 47, 49>>, <<49, 45, 49>>, <<49, 45, 50>>, <<50, 94, 48>>,
            <<48, 94, 48>>, <<50, 94, 45, 49>>, <<49, 48, 47, 49, 49>>, <<50, 94, 50, 94, 50, 94, 50, 94, 50, 94, 50>>, <<57, 94, 57, 94, 57, 94, 57>>, <<50, 94>> \o Huge64, <<50, 94>> \o Huge65, <<50, 94>> \o Huge200,
            <<49, 94>> \o Huge200, <<48, 94>> \o Huge200, <<45, 49, 94>> \o Huge200, Huge200 \o <<94>> \o Huge200, Huge200 \o <<47>> \o Huge200, Huge200 \o <<45>> \o Huge200, <<48, 120>>, <<48, 98>>, <<48, 120, 49>>, <<48, 88, 49>>,
            <<40, 49, 41>>, <<49, 43>>, <<43, 49>>, <<45, 45, 49>>, <<49, 32, 50>>, <<97>>, <<49, 37, 50>>, <<49, 42, 42, 50>>, <<50, 94, 51, 45, 56>>, <<49, 47, 50>>, <<45, 52, 47, 50>>, <<45, 49, 42, 45, 49>>, <<37, 115, 37, 100>>, <<48, 49, 48>>, <<255>>, <<49, 10>>, <<49, 95, 48>>, <<49, 101, 51>> >>

LineToks == << TSearch, TEval, TFmt, TGen, THelp, TCite, TFlags, TCommands, TVersion, TMinusV, TMinusP, TMinusAdd, TMinusDouble, TMinusB, TType, TTmpl, TOut,
               <<50>>, <<48>>, <<45, 49>>, <<120>>, TInput, <<110, 111>>, TListing, TScript, <<>>, <<45, 45>>, <<45>>, <<45, 104>>, <<45>> \o THelp, <<45, 112, 61, 48>>, TMinusAdd \o <<61>> \o TNaN, <<111, 46, 116>>, <<46>>, <<47>> >>
Line(key) == [k \in 1..Rand(<<key, "len">>, 6) |-> IF k = 1 /\ Rand(<<key, "cmd">>, 3) # 0 THEN Pick(key, "c", SubSeq(LineToks, 1, 9)) ELSE Pick(<<key, k>>, "t", LineToks)]

RandText(key) ==
    LET k == Rand(<<key, "kind">>, 8)
        s == SpellScript(RandScript(key, 1 + GR(key, "n", 7), 1 + GR(key, "d", 4)), key)
    IN IF k = 0 THEN Bytes(key, Rand(<<key, "n">>, 40))
       ELSE IF k = 1 THEN Glue([i \in 1..(4 + Rand(<<key, "n">>, 20)) |-> 1 + Rand(<<key, i>>, 19)])
       ELSE IF k < 4 THEN s
       ELSE Edits(s, key, 1 + GR(key, "ne", 5))
RandExprText(key) ==
    LET k == Rand(<<key, "kind">>, 4) IN
    IF k = 0 THEN Bytes(key, Rand(<<key, "n">>, 12))
    ELSE FoldLeft(LAMBDA s, i : s \o ExprPieces[1 + Rand(<<key, i>>, 14)], <<>>, [i \in 1..(1 + Rand(<<key, "n">>, 9)) |-> i])

Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ st' = [t |-> "tok", s |-> <<>>]
    \/ st' = [t |-> "core", s |-> <<>>]
    \/ st' = [t |-> "etok", s |-> <<>>]
    \/ \E i \in 1..Len(Degenerate) : \E c \in 1..Len(ScriptArgs) : st' = [t |-> "deg", i |-> i, c |-> c]
    \/ \E k \in 1..DeepShapes : \E n \in {64, 1000, 8000, DeepTo} : st' = [t |-> "deep", k |-> k, n |-> n]
    \/ \E i \in 1..Len(Exprs) : \E f \in 0..7 : st' = [t |-> "expr", i |-> i, f |-> f]
    \/ \E k \in 1..Len(LongPieces) : st' = [t |-> "edeep", k |-> k, n |-> 0, e |-> 0]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..CliScripts : st' = [t |-> "cscript", b |-> b]
    \/ \E b \in 1..CliExprs : st' = [t |-> "cexpr", b |-> b]
    \/ \E b \in 1..CliLines : st' = [t |-> "cline", b |-> b]
TokStep == st.t = "tok" /\ Len(st.s) < TokLen /\ \E k \in 1..18 : st' = [st EXCEPT !.s = Append(@, k)]
CoreStep == st.t = "core" /\ Len(st.s) < CoreLen /\ \E k \in CoreToks : st' = [st EXCEPT !.s = Append(@, k)]
ExprStep == st.t = "etok" /\ Len(st.s) < ExprLen /\ \E k \in 1..14 : st' = [st EXCEPT !.s = Append(@, k)]
DeepExpr == st.t = "edeep" /\ st.n = 0 /\ \E n \in {12, 30, 60, 200, 1000, LongTo} : \E e \in 1..Len(LongEnds) : st' = [st EXCEPT !.n = n, !.e = e]
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound : st' = [t |-> "case", key |-> <<Seed, st.b, i>>]
Next == Root \/ TokStep \/ CoreStep \/ ExprStep \/ DeepExpr \/ PickRnd
Spec == Init /\ [][Next]_vars

(* arguments cannot contain the zero byte *)
Arg(s) == SelectSeq(s, LAMBDA c : c # 0)
SearchOf(expr, flags, plain) == [expr |-> Arg(expr), flags |-> flags, plain |-> plain]
(* an expression that looks like a flag is taken for one *)
FlagLike(s) == s # <<>> /\ s[1] = 45
(* dots with an optional trailing flag: shift amounts are bounded in what the command evaluates *)
BoundedText(s) == LET g == ParseScript(s) IN ~g.ok \/ Bounded(g.ss, 4000)
(* the big powers are only given to the calculator *)
ImplInv ==
    CASE st.t \in {"tok", "core"} -> Check("entries", Glue(st.s)) /\ (st.t = "core" => Check("entries", Eq(NX, <<49, 43, 49>>) \o Glue(st.s)))
      [] st.t = "etok" -> Check("expr", FoldLeft(LAMBDA s, i : s \o ExprPieces[i], <<>>, st.s))
      [] st.t = "deg" -> /\ st.c = 1 => Check("entries", Degenerate[st.i])
                         /\ BoundedText(Degenerate[st.i]) =>
                              Check("script", IF (st.i + st.c) % 3 = 0 THEN [args |-> Append(ScriptArgs[st.c], TInput), in |-> <<>>, file |-> Degenerate[st.i]]
                                              ELSE [args |-> ScriptArgs[st.c], in |-> Degenerate[st.i]])
      [] st.t = "deep" -> /\ Check("entries", Deep(st.k, st.n))
                          /\ Check("script", [args |-> ScriptArgs[1 + ((st.k + st.n) % 4)], in |-> Deep(st.k, st.n)])
      [] st.t = "edeep" -> IF st.n = 0 THEN TRUE
                           ELSE LET s == LongExpr(st.k, st.n, st.e) IN
                                /\ Check("expr", s)
                                /\ (st.n \in {12, 30} /\ st.e = 1 /\ Feasible(s)) => Check("search", SearchOf(s, <<>>, ~FlagLike(s)))
      [] st.t = "expr" -> LET e == Exprs[st.i] IN
                          /\ st.f = 0 => Check("expr", e)
                          /\ (st.f = 0 \/ Feasible(e)) =>
                               Check("search", SearchOf(e, IF st.f = 0 THEN <<>> ELSE IF st.f = 1 THEN <<<<45, 45>>>> ELSE Flags(<<Seed, "ef", st>>), st.f = 0 /\ ~FlagLike(e)))
      [] st.t = "case" -> Check("entries", RandText(st.key)) /\ Check("expr", RandExprText(st.key))
      [] st.t = "cscript" -> LET key == <<Seed, "cs", st.b>>
                                 s == RandText(key)
                                 c == Pick(key, "cmd", ScriptArgs)
                             IN BoundedText(s) => Check("script", IF GR(key, "file", 3) = 0 THEN [args |-> Append(c, TInput), in |-> <<>>, file |-> s] ELSE [args |-> c, in |-> s])
      [] st.t = "cexpr" -> LET key == <<Seed, "ce", st.b>>
                               e == IF GR(key, "list", 3) = 0 THEN Pick(key, "e", Exprs) ELSE RandExprText(key)
                           IN Feasible(Arg(e)) => Check("search", SearchOf(e, IF PlainFlags(key) THEN <<>> ELSE Flags(key), PlainFlags(key) /\ ~FlagLike(e)))
      [] st.t = "cline" -> LET key == <<Seed, "cl", st.b>>
                               s == RandText(key)
                           IN BoundedText(s) => Check("line", [args |-> Line(key), in |-> IF GR(key, "noin", 2) = 0 THEN <<>> ELSE s, file |-> s])
      [] OTHER -> TRUE
=============================================================================
