------------------------------ MODULE ScriptGen ------------------------------
(* Pseudo-random scripts, their spellings, and edits (functions of a key).   *)
EXTENDS ScriptSem, Impl

GR(key, name, m) == Rand(<<key, name>>, m)
Pick(key, name, s) == s[1 + GR(key, name, Len(s))]

NX == <<120>>            NY == <<121>>          NUnder == <<95>>        NI2 == <<105, 50>>
N10 == <<95, 49, 48>>    NX3 == <<120, 51>>     NT0 == <<116, 48>>      NAb9 == <<97, 66, 95, 57>>
NReturns == TReturn \o <<115>>   NDblx == TDbl \o <<120>>   NDbl1 == TDbl \o <<49>>   NZ == <<122>>
NAdds == TAdd \o <<95>>  NDbl_ == TDbl \o <<95>>  NShl2 == TShl \o <<50>>  NCapZ == <<90>>
(* keywords in other capitals are identifiers like any other *)
CaseNames == <<<<68, 66, 76>>, <<65, 100, 100>>, <<83, 72, 76>>, <<82, 69, 84, 85, 82, 78>>, <<82, 101, 116, 117, 114, 110>>, <<115, 104, 76, 49>>,
               <<68, 98, 108>> \o NX, <<65, 68, 68, 49>>, TReturn \o <<49>>, TShl \o NX, TAdd \o <<49>>>>
Names == <<NX, NY, NUnder, NI2, N10, NX3, NT0, NAb9, TReturn, TAdd, TShl, TDbl, NReturns, NAdds, NShl2, NZ, NCapZ, NDblx, NDbl1, NDbl_>>
PlainNames == SubSeq(Names, 1, 17) \o CaseNames

(* names: names defined so far; hi: about how many elements there are *)
RandLeaf(key, names, hi) ==
    LET k == GR(key, "leaf", 10) IN
    IF k < 3 \/ (names = <<>> /\ k < 7) THEN <<"op", BZero>>
    ELSE IF k < 5 \/ names = <<>> THEN <<"op", BFromInt(GR(key, "idx", hi + 1))>>
    ELSE IF k = 5 /\ GR(key, "undef", 20) = 0 THEN <<"id", Pick(key, "un", Names)>>
    ELSE <<"id", IF k < 8 THEN names[Len(names)] ELSE Pick(key, "nm", names)>>
RECURSIVE RandExpr(_, _, _, _)
RandExpr(key, d, names, hi) ==
    LET k == GR(key, "kind", 10) IN
    IF d = 0 \/ k = 0 THEN RandLeaf(key, names, hi)
    ELSE IF k < 6 THEN <<"add", RandExpr(<<key, 1>>, d-1, names, hi), RandExpr(<<key, 2>>, IF GR(key, "deep", 3) = 0 THEN d-1 ELSE 0, names, hi)>>
    ELSE IF k < 8 THEN <<"dbl", RandExpr(<<key, 3>>, d-1, names, hi)>>
    ELSE <<"shl", RandExpr(<<key, 4>>, d-1, names, hi), BFromInt(IF GR(key, "big", 6) = 0 THEN 1 + GR(key, "s2", 40) ELSE 1 + GR(key, "s", 4))>>

(* n statements; names fresh except now and then *)
RandScriptFrom(key, n, d, pool) ==
    FoldLeft(LAMBDA ss, k :
        LET names == [j \in 1..Len(ss) |-> ss[j].n]
            free == SelectSeq(pool, LAMBDA m : m \notin Range(names))
            nm == IF free = <<>> THEN NX \o DecText(BFromInt(100 + k))
                  ELSE IF names # <<>> /\ GR(<<key, k>>, "redef", 60) = 0 THEN names[1] ELSE Pick(<<key, k>>, "name", free)
        IN Append(ss, [n |-> IF k = n THEN <<>> ELSE nm,
                       e |-> RandExpr(<<key, k>>, IF GR(<<key, k>>, "alias", 8) = 0 THEN 0 ELSE 1 + GR(<<key, k>>, "d", d), names, 3 * k - 1)]),
      <<>>, [k \in 1..n |-> k])
RandScript(key, n, d) == RandScriptFrom(key, n, d, IF GR(key, "dbl", 6) = 0 THEN Names ELSE PlainNames)

(* ---------- spellings ---------- *)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE BaseDigits(_, _)
BaseDigits(x, b) == IF x = BZero THEN <<>> ELSE BaseDigits(BDiv(x, BFromInt(b)), b) \o
                       <<HexDigit(LET d == BMod(x, BFromInt(b)) IN IF d = BZero THEN 0 ELSE d[1])>>
Digs(x, b) == IF x = BZero THEN <<48>> ELSE BaseDigits(x, b)
Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 THEN s[i] - 32 ELSE s[i]]
LitText(x, key) ==
    LET k == GR(key, "lit", 8) IN
    IF k = 0 THEN <<48, 120>> \o Digs(x, 16) ELSE IF k = 1 THEN <<48>> \o Digs(x, 8)
    ELSE IF k = 2 THEN <<48, 120>> \o Upper(Digs(x, 16)) ELSE IF k = 3 THEN <<48, 48>> \o Digs(x, 8)
    ELSE IF k = 4 THEN <<48, 120, 48>> \o Digs(x, 16) ELSE DecText(x)
Gap(key, name) == LET k == GR(key, name, 12) IN
    IF k < 5 THEN <<>> ELSE IF k < 9 THEN <<32>> ELSE IF k = 9 THEN <<9>> ELSE IF k = 10 THEN <<32, 32>> ELSE <<13, 32>>
Gap1(key, name) == LET g == Gap(key, name) IN IF g = <<>> THEN <<32>> ELSE g

RECURSIVE Spell(_, _), SpellBase(_, _)
SpellParen(t, key) == <<40>> \o Gap(key, "p1") \o Spell(t, <<key, "p">>) \o Gap(key, "p2") \o <<41>>
SpellBase(t, key) == IF IsAtom(t) /\ GR(key, "xp", 8) # 0 THEN Spell(t, key) ELSE SpellParen(t, key)
Spell(t, key) ==
    CASE t[1] = "op" -> IF t[2] = BZero /\ GR(key, "one", 8) # 0 THEN <<49>>
                        ELSE <<91>> \o Gap(key, "i1") \o LitText(t[2], key) \o Gap(key, "i2") \o <<93>>
      [] t[1] = "id" -> t[2]
      [] t[1] = "add" ->
            (IF GR(key, "lp", 8) = 0 THEN SpellParen(t[2], <<key, 1>>) ELSE Spell(t[2], <<key, 1>>))
            \o (IF GR(key, "word", 3) = 0 THEN Gap1(key, "a1") \o TAdd \o Gap(key, "a2") ELSE Gap(key, "a1") \o <<43>> \o Gap(key, "a2"))
            \o (IF t[3][1] = "add" \/ GR(key, "rp", 8) = 0 THEN SpellParen(t[3], <<key, 2>>) ELSE Spell(t[3], <<key, 2>>))
      [] t[1] = "dbl" -> (IF GR(key, "word", 3) = 0 THEN TDbl \o (IF GR(key, "tight", 4) = 0 THEN <<>> ELSE Gap1(key, "d1")) ELSE <<50>> \o Gap(key, "d1") \o <<42>> \o Gap(key, "d2"))
                         \o SpellBase(t[2], <<key, 3>>)
      [] t[1] = "shl" -> SpellBase(t[2], <<key, 4>>)
                         \o (IF GR(key, "word", 3) = 0 THEN Gap1(key, "s1") \o TShl \o Gap(key, "s2") ELSE Gap(key, "s1") \o <<60, 60>> \o Gap(key, "s2"))
                         \o LitText(t[3], <<key, "n">>)
SpellStmt(st, key, last) ==
    Gap(key, "g0")
    \o (IF st.n = <<>> THEN (IF GR(key, "ret", 3) = 0 THEN <<>> ELSE TReturn \o Gap1(key, "g1"))
        ELSE st.n \o Gap(key, "g1") \o <<61>> \o Gap(key, "g2"))
    \o Spell(st.e, key) \o Gap(key, "g3")
    \o (IF last /\ GR(key, "nonl", 3) = 0 THEN <<>> ELSE <<10>>)
SpellScript(ss, key) == FoldLeft(LAMBDA s, k : s \o SpellStmt(ss[k], <<key, "st", k>>, k = Len(ss)), <<>>, [k \in 1..Len(ss) |-> k])

(* ---------- edits ---------- *)
EditAlphabet == <<<<49>>, <<50>>, <<42>>, <<43>>, <<60>>, <<60, 60>>, <<40>>, <<41>>, <<91>>, <<93>>, <<61>>, <<10>>, <<32>>, <<9>>, <<48>>, <<56>>, NX,
                  TDbl, TShl, TAdd, TReturn, <<48, 120>>, <<95>>, <<13>>, <<11>>, <<0>>, <<35>>, <<195, 169>>, <<255>>, <<45>>, <<62>>, <<46>>, <<34>>, <<126>>>> \o CaseNames
SwapCase(c) == IF c \in 97..122 THEN c - 32 ELSE IF c \in 65..90 THEN c + 32 ELSE c
Edit(s, key) ==
    LET k == GR(key, "edit", 8)
        i == GR(key, "at", Len(s) + 1)
        j == IF i < Len(s) THEN i + 1 + GR(key, "len", IF Len(s) - i < 4 THEN Len(s) - i ELSE 4) ELSE i
        w == Pick(key, "with", EditAlphabet)
        a == SubSeq(s, 1, i)
    IN CASE k = 0 -> a \o SubSeq(s, j+1, Len(s))                         \* delete
         [] k = 1 -> a \o w \o SubSeq(s, i+1, Len(s))                    \* insert
         [] k = 2 -> a \o w \o SubSeq(s, i+2, Len(s))                    \* replace
         [] k = 3 -> a \o SubSeq(s, i+1, j) \o SubSeq(s, i+1, Len(s))    \* duplicate
         [] k = 4 -> a                                                    \* truncate
         [] k = 5 -> a \o [x \in 1..(j-i) |-> SwapCase(s[i+x])] \o SubSeq(s, j+1, Len(s))
         [] k = 6 -> a \o <<GR(key, "byte", 256)>> \o SubSeq(s, j+1, Len(s))
         [] OTHER -> a \o <<GR(key, "byte", 256)>> \o SubSeq(s, i+1, Len(s))
Edits(s, key, n) == FoldLeft(LAMBDA t, k : Edit(t, <<key, k>>), s, [k \in 1..n |-> k])
=============================================================================
