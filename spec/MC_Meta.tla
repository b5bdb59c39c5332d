------------------------------ MODULE MC_Meta ------------------------------
(***************************************************************************)
(* C20.  Histories of the ordered map (exhaustive up to a length), values    *)
(* over all bytes (exhaustive up to 3 of a set of critical bytes), random    *)
(* files, and the release tool's update of a file.                            *)
(***************************************************************************)
EXTENDS OrderedMap, Impl, SequencesExt, TLC

CONSTANTS Seed, HistLen, ByteLen, Rounds, PerRound, BumpRuns, LongRuns

VARIABLE st
vars == st
R(key, name, m) == Rand(<<key, name>>, m)

NA == <<97>>  NB == <<98>>  NC == <<99>>
HistNames == {NA, NB, NC}
HistValues == {<<120>>, <<>>, <<34, 255>>}
HistOps == {[k |-> "get", n |-> n, v |-> <<>>, d |-> <<>>] : n \in HistNames}
      \cup {[k |-> "add", n |-> n, v |-> v, d |-> IF n = NB THEN <<68, 111, 99>> ELSE <<>>] : n \in HistNames, v \in HistValues \ {<<>>}}
      \cup {[k |-> "set", n |-> n, v |-> v, d |-> <<>>] : n \in HistNames, v \in HistValues}
E(n, v) == [n |-> n, d |-> <<>>, v |-> v]
Starts == {<<>>, <<E(NA, <<120>>)>>, <<E(NB, <<120>>), E(NA, <<>>)>>}

MetaName == <<109, 101, 116, 97>>
Interesting == {0, 9, 10, 13, 27, 34, 36, 37, 39, 65, 92, 96, 117, 120, 127, 128, 160, 173, 192, 194, 226, 237, 239, 240, 255}

JudgeHist(a, r) ==
    LET ms == FoldLeft(LAMBDA acc, op : Append(acc, After(acc[Len(acc)], op)), <<a.props>>, a.ops) IN
    /\ r.st = "ok"
    /\ Len(r.v.steps) = Len(a.ops)
    /\ \A i \in 1..Len(a.ops) :
         /\ r.v.steps[i].ok = ResultOf(ms[i], a.ops[i]).ok
         /\ (a.ops[i].k = "get" /\ r.v.steps[i].ok) => r.v.steps[i].v = ResultOf(ms[i], a.ops[i]).v
         /\ r.v.steps[i].props = ms[i+1]
         /\ r.v.steps[i].pkg = a.pkg
    /\ r.v.pkg = a.pkg /\ r.v.props = ms[Len(ms)]
JudgeRound(a, r) ==
    /\ r.st = "ok" /\ r.v.ok
    /\ r.v.canonical
    /\ r.v.pkg = a.pkg /\ r.v.props = a.props
    /\ r.v.samefile /\ r.v.fpkg = a.pkg /\ r.v.fprops = a.props
    /\ r.v.unchanged
RelVersion == <<114, 101, 108, 101, 97, 115, 101, 118, 101, 114, 115, 105, 111, 110>>
RelDate == <<114, 101, 108, 101, 97, 115, 101, 100, 97, 116, 101>>
(* bump sets the version, then the date; an unknown name stops it. *)
JudgeBump(a, r) ==
    LET m1 == SetIn(a.props, RelVersion, a.version)
        m2 == IF Has(a.props, RelVersion) THEN SetIn(m1, RelDate, a.date) ELSE m1
        good == Has(a.props, RelVersion) /\ Has(a.props, RelDate)
    IN /\ r.st = "ok"
       /\ (r.v.status = 0) = good
       /\ r.v.readok /\ r.v.pkg = a.pkg /\ r.v.props = m2 /\ r.v.canonical

Judge(tag, a, r) == CASE tag = "mv.hist" -> JudgeHist(a, r) [] tag = "mv.round" -> JudgeRound(a, r) [] tag = "mv.bump" -> JudgeBump(a, r)
Check(tag, a) == LET r == Call(tag, a) IN Report(tag, a, Judge(tag, a, r))

(* Characters of plain prose, in every position of a one-line documentation   *)
(* text.  Left out are those gofmt itself rewrites at the start of a comment   *)
(* line (list markers, headings, build constraints) and quotes it pairs up.    *)
DocChars == (48..57) \cup (65..90) \cup (97..122) \cup
    {33, 36, 37, 38, 40, 41, 44, 46, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 94, 95, 123, 124, 125, 126}
Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ \E m \in Starts : st' = [t |-> "hist", start |-> m, props |-> m, ops |-> <<>>]
    \/ \E b \in 0..255 : st' = [t |-> "byte", b |-> b]
    \/ \E c \in DocChars : st' = [t |-> "docc", c |-> c]
    \/ st' = [t |-> "val", v |-> <<>>]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
    \/ \E b \in 1..LongRuns : st' = [t |-> "long", b |-> b]
    \/ \E b \in 1..BumpRuns : st' = [t |-> "brnd", b |-> b]
Hist == st.t = "hist" /\ Len(st.ops) < HistLen /\ \E op \in HistOps :
    st' = [st EXCEPT !.props = After(@, op), !.ops = Append(@, op)]
Val == st.t = "val" /\ Len(st.v) < ByteLen /\ \E b \in Interesting : st' = [st EXCEPT !.v = Append(@, b)]

\* identifiers: ASCII, underscores, digits, non-ASCII letters, predeclared names
Idents == << <<97>>, <<98, 49>>, <<95>>, <<95, 95>>, <<65>>, <<195, 169>>, <<206, 187, 120>>, <<228, 184, 150>>, <<115, 116, 114, 105, 110, 103>>,
    <<110, 105, 108>>, <<116, 114, 117, 101>>, <<105, 111, 116, 97>>, <<105, 110, 105, 116>>, <<109, 97, 105, 110>>, RelVersion, RelDate,
    <<100, 111, 105>>, <<86, 97, 114>>, <<118, 97, 114, 95>>, <<120, 80, 49>>, <<76, 111, 110, 103, 86, 97, 114, 105, 97, 98, 108, 101, 78, 97, 109, 101, 87, 105, 116, 104, 77, 97, 110, 121, 87, 111, 114, 100, 115>>, <<108, 101, 110>> >>
(* words of prose *)
Words == << <<84, 104, 101>>, <<118, 101, 114, 115, 105, 111, 110>>, <<97>>, <<73>>, <<100, 97, 116, 101>>, <<47, 117, 115, 114, 47, 98, 105, 110>>, <<40, 97, 41>>,
    <<104, 116, 116, 112, 115, 58, 47, 47, 97, 46, 98, 47, 99>>, <<53, 37>>, <<37, 115>>, <<111, 102, 44>>, <<105, 116, 39, 115>>, <<114, 101, 45, 114, 117, 110>>,
    <<40, 115, 101, 101, 41>>, <<195, 169, 116, 195, 169>>, <<50, 48, 52, 56>>, <<98, 121, 59>>, <<118, 97, 114>>, <<70, 79, 79>>, <<110, 117, 109, 98, 101, 114, 46>> >>
Prose(key, n) ==
    LET w(i) == LET k == R(key, <<"w", i>>, IF i = 1 THEN 7 ELSE Len(Words)) IN Words[1 + k]
    IN FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN <<32>> ELSE <<>>) \o w(i), <<>>, [i \in 1..n |-> i])
       \o (IF R(key, "dot", 2) = 0 THEN <<>> ELSE <<46>>)
Bytes(key, n) == LET mode == R(key, "mode", 4)
                     b(i) == IF mode = 0 THEN R(key, <<"b", i>>, 256)
                             ELSE IF mode = 1 THEN <<10, 13, 34, 92, 37, 96, 0, 110, 255, 194, 128, 47, 42>>[1 + R(key, <<"b", i>>, 13)]
                             ELSE IF mode = 2 THEN 32 + R(key, <<"b", i>>, 95)
                             ELSE <<226, 128, 168, 239, 187, 191, 240, 159, 152, 128, 237, 160>>[1 + ((i + R(key, "off", 12)) % 12)]
                 IN [i \in 1..n |-> b(i)]
RndProps(key, n) ==
    LET off == R(key, "off", Len(Idents))
        step == <<1, 3, 5, 7, 9, 13>>[1 + R(key, "step", 6)]   \* coprime to 22: distinct names
        docs == R(key, "docs", 3)
    IN [i \in 1..n |-> [n |-> Idents[1 + ((off + step * i) % Len(Idents))],
                        d |-> IF docs = 0 \/ R(key, <<"hd", i>>, 2) = 0 THEN <<>> ELSE Prose(<<key, "doc", i>>, 1 + R(key, <<"dn", i>>, 9)),
                        v |-> Bytes(<<key, "val", i>>, R(key, <<"vl", i>>, IF i % 4 = 0 THEN 200 ELSE 12))]]
Pkg(key) == LET p == Idents[1 + R(key, "pkg", Len(Idents))] IN IF p = <<95>> THEN MetaName ELSE p
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>> IN
    IF i % 4 # 0 THEN st' = [t |-> "case", tag |-> "mv.round", a |-> [pkg |-> Pkg(key), props |-> RndProps(key, R(key, "n", 7))]]
    ELSE LET n == R(key, "n", 5)
             op(j) == [k |-> <<"get", "add", "set">>[1 + R(key, <<"k", j>>, 3)], n |-> Idents[1 + R(key, <<"on", j>>, 9)], v |-> Bytes(<<key, "ov", j>>, R(key, <<"ol", j>>, 4)), d |-> <<>>]
         IN st' = [t |-> "case", tag |-> "mv.hist", a |-> [pkg |-> Pkg(key), props |-> RndProps(key, n), ops |-> [j \in 1..(1 + R(key, "m", 30)) |-> op(j)], via |-> R(key, "via", 2) = 0]]
NoNul(s) == SelectSeq(s, LAMBDA c : c # 0)
PickBump == st.t = "brnd" /\
    LET key == <<Seed, "bump", st.b>>
        base == SelectSeq(RndProps(key, 4), LAMBDA e : e.n # RelVersion /\ e.n # RelDate)
        v == IF R(key, "hv", 8) = 0 THEN <<>> ELSE <<[n |-> RelVersion, d |-> Prose(<<key, "d1">>, 4), v |-> Bytes(<<key, "v1">>, 5)]>>
        d == IF R(key, "hd", 8) = 0 THEN <<>> ELSE <<[n |-> RelDate, d |-> <<>>, v |-> Bytes(<<key, "v2">>, 5)]>>
        all == IF R(key, "ord", 2) = 0 THEN v \o base \o d ELSE d \o v \o base
        date == NoNul(Bytes(<<key, "date">>, 1 + R(key, "dl", 12)))
    IN st' = [t |-> "case", tag |-> "mv.bump", a |-> [pkg |-> Pkg(key), props |-> all, version |-> <<49, 46, 48 + R(key, "x", 10), 46, 51>>,
              date |-> IF date = <<>> THEN <<120>> ELSE date]]
Next == Root \/ Hist \/ Val \/ PickRnd \/ PickBump
Spec == Init /\ [][Next]_vars

(* values of tens of thousands of bytes, and files of many properties *)
LongBytes(b) ==
    LET key == <<Seed, "long", b>>
        n == <<255, 4097, 65535, 65536, 66000, 70001>>[1 + (b % 6)]
        u == <<<<120>>, <<34>>, <<10>>, <<97, 98, 32>>, <<255>>, <<92, 110>>>>[1 + R(key, "u", 6)]
    IN [i \in 1..n |-> u[1 + (i % Len(u))]]
ManyProps(b) ==
    LET key == <<Seed, "many", b>> IN
    [i \in 1..(20 + R(key, "n", 300)) |-> [n |-> <<112, 48 + (i % 10), 48 + ((i \div 10) % 10), 48 + (i \div 100), 97 + R(key, <<"c", i>>, 26)>>,
                                           d |-> IF R(key, <<"hd", i>>, 3) = 0 THEN Prose(<<key, "doc", i>>, 3) ELSE <<>>,
                                           v |-> Bytes(<<key, "val", i>>, R(key, <<"vl", i>>, 10))]]
One(v) == [pkg |-> MetaName, props |-> <<E(NA, v)>>]
ImplInv ==
    CASE st.t = "hist" -> st.ops # <<>> => Check("mv.hist", [pkg |-> MetaName, props |-> st.start, ops |-> st.ops, via |-> R(<<st.ops, st.start>>, "via", 2) = 0])
      [] st.t = "byte" -> /\ Check("mv.round", One(<<st.b>>)) /\ Check("mv.round", One(<<65, st.b, 66>>))
                          /\ Check("mv.round", One(<<st.b, 48, 49>>)) /\ Check("mv.round", One(<<92, st.b>>))
      [] st.t = "docc" -> \A d \in { <<st.c>>, <<st.c, 98, 99>>, <<st.c, st.c, 98>>, <<st.c, 32, 98>>, <<98, 32, st.c, 99>>, <<98, st.c>>, <<98, 32, st.c>> } :
             Check("mv.round", [pkg |-> MetaName, props |-> <<[E(NA, <<118>>) EXCEPT !.d = d]>>])
      [] st.t = "val" -> Check("mv.round", One(st.v))
      [] st.t = "case" -> Check(st.tag, st.a)
      [] st.t = "long" -> /\ Check("mv.round", One(LongBytes(st.b)))
                          /\ Check("mv.round", [pkg |-> MetaName, props |-> ManyProps(st.b)])
                          /\ LET ps == ManyProps(st.b)
                                 op(j) == [k |-> <<"get", "add", "set">>[1 + R(<<Seed, st.b, j>>, "k", 3)],
                                           n |-> IF R(<<Seed, st.b, j>>, "new", 4) = 0 THEN <<110, 48 + R(<<Seed, st.b, j>>, "nn", 10)>> ELSE ps[1 + R(<<Seed, st.b, j>>, "w", Len(ps))].n,
                                           v |-> <<48 + R(<<Seed, st.b, j>>, "v", 10)>>, d |-> <<>>]
                             IN Check("mv.hist", [pkg |-> MetaName, props |-> ps, ops |-> [j \in 1..20 |-> op(j)], via |-> st.b % 2 = 0])
      [] OTHER -> TRUE
(* The ordered map never holds a name twice, and only add changes the names. *)
ModelInv == st.t = "hist" =>
    /\ Distinct(st.props)
    /\ Len(st.props) >= Len(st.start) /\ \A i \in 1..Len(st.start) : st.props[i].n = st.start[i].n /\ st.props[i].d = st.start[i].d
(* No operation removes a name, and get changes nothing. *)
StepProp == [][st.t = "hist" => \A i \in 1..Len(st.props) : st'.props[i].n = st.props[i].n]_vars
=============================================================================
