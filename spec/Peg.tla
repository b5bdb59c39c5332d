--------------------------------- MODULE Peg ---------------------------------
(***************************************************************************)
(* Parsing expression grammars, and the published grammar of the addition   *)
(* chain calculator (acc/parse/acc.peg) transcribed rule by rule as a value. *)
(* Match(e, s, i) is the position after the prefix of s from i that e        *)
(* consumes, or 0 when e fails: prioritised choice, greedy repetition, no    *)
(* backtracking into either.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Lit(cs) == <<"lit", cs>>
Cls(S)  == <<"cls", S>>
Sq(es)  == <<"seq", es>>
Alt(es) == <<"alt", es>>
Star(e) == <<"star", e>>
Plus(e) == <<"plus", e>>
Opt(e)  == <<"opt", e>>
NT(n)   == <<"nt", n>>
End     == <<"end", "">>

Digits  == 48..57
Letters == (65..90) \cup (97..122) \cup {95}
HexDigits == Digits \cup (65..70) \cup (97..102)
OctDigits == 48..55
Blanks  == {32, 9, 13}

W  == Star(Cls(Blanks))
W1 == Plus(Cls(Blanks))
TReturn == <<114, 101, 116, 117, 114, 110>>
TAdd == <<97, 100, 100>>
TShl == <<115, 104, 108>>
TDbl == <<100, 98, 108>>

Rule(n) ==
    CASE n = "Chain"      -> Sq(<<Star(NT("Assignment")), NT("Return"), W, End>>)
      [] n = "Assignment" -> Sq(<<W, NT("Identifier"), W, Lit(<<61>>), W, NT("AddExpr"), W, Lit(<<10>>)>>)
      [] n = "Return"     -> Sq(<<W, Opt(Sq(<<Lit(TReturn), W1>>)), NT("AddExpr"), W, Opt(Lit(<<10>>))>>)
      [] n = "AddExpr"    -> Sq(<<W, NT("ShiftExpr"), Star(Sq(<<W, NT("AddOperator"), W, NT("ShiftExpr")>>)), W>>)
      [] n = "ShiftExpr"  -> Alt(<<Sq(<<W, NT("BaseExpr"), W, NT("ShiftOperator"), W, NT("UintLiteral"), W>>),
                                   Sq(<<W, NT("DoubleOperator"), W, NT("BaseExpr")>>),
                                   NT("BaseExpr")>>)
      [] n = "BaseExpr"   -> Alt(<<NT("ParenExpr"), NT("Operand")>>)
      [] n = "ParenExpr"  -> Sq(<<Lit(<<40>>), W, NT("AddExpr"), W, Lit(<<41>>)>>)
      [] n = "AddOperator"    -> Alt(<<Lit(<<43>>), Lit(TAdd)>>)
      [] n = "ShiftOperator"  -> Alt(<<Lit(<<60, 60>>), Lit(TShl)>>)
      [] n = "DoubleOperator" -> Alt(<<Sq(<<Lit(<<50>>), W, Lit(<<42>>)>>), Lit(TDbl)>>)
      [] n = "Operand"    -> Alt(<<NT("One"), NT("Index"), NT("Identifier")>>)
      [] n = "One"        -> Lit(<<49>>)
      [] n = "Index"      -> Sq(<<Lit(<<91>>), W, NT("UintLiteral"), W, Lit(<<93>>)>>)
      [] n = "Identifier" -> Sq(<<Cls(Letters), Star(Cls(Letters \cup Digits))>>)
      [] n = "UintLiteral" -> Alt(<<Sq(<<Lit(<<48, 120>>), Plus(Cls(HexDigits))>>),
                                    Sq(<<Lit(<<48>>), Plus(Cls(OctDigits))>>),
                                    Plus(Cls(Digits))>>)

HasAt(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t

RECURSIVE Match(_, _, _), MatchSeq(_, _, _, _), MatchAlt(_, _, _, _), MatchStar(_, _, _)
Match(e, s, i) ==
    CASE e[1] = "lit"  -> IF HasAt(s, i, e[2]) THEN i + Len(e[2]) ELSE 0
      [] e[1] = "cls"  -> IF i <= Len(s) /\ s[i] \in e[2] THEN i + 1 ELSE 0
      [] e[1] = "end"  -> IF i > Len(s) THEN i ELSE 0
      [] e[1] = "nt"   -> Match(Rule(e[2]), s, i)
      [] e[1] = "seq"  -> MatchSeq(e[2], 1, s, i)
      [] e[1] = "alt"  -> MatchAlt(e[2], 1, s, i)
      [] e[1] = "star" -> MatchStar(e[2], s, i)
      [] e[1] = "plus" -> LET j == Match(e[2], s, i) IN IF j = 0 THEN 0 ELSE MatchStar(e[2], s, j)
      [] e[1] = "opt"  -> LET j == Match(e[2], s, i) IN IF j = 0 THEN i ELSE j
MatchSeq(es, k, s, i) == IF k > Len(es) THEN i ELSE LET j == Match(es[k], s, i) IN IF j = 0 THEN 0 ELSE MatchSeq(es, k+1, s, j)
MatchAlt(es, k, s, i) == IF k > Len(es) THEN 0 ELSE LET j == Match(es[k], s, i) IN IF j # 0 THEN j ELSE MatchAlt(es, k+1, s, i)
MatchStar(e, s, i) == LET j == Match(e, s, i) IN IF j = 0 THEN i ELSE MatchStar(e, s, j)

(* s is a text of the language (numeric range of literals aside) *)
InLanguage(s) == Match(NT("Chain"), s, 1) # 0
=============================================================================
