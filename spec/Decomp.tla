------------------------------- MODULE Decomp -------------------------------
(***************************************************************************)
(* Dictionary decompositions (C09).                                         *)
(*                                                                          *)
(* Contract: what the property demands of a list of terms.                  *)
(* Design:   the scanning machines of the four methods, as state machines.  *)
(***************************************************************************)
EXTENDS BigNat, SequencesExt, FiniteSets

TermsSum(ts) == FoldLeft(LAMBDA acc, t : BAdd(acc, BShl(t.d, t.e)), BZero, ts)

SortedStrict(s) == \A i \in 1..(Len(s)-1) : BLt(s[i], s[i+1])
SetOfSeq(s) == {s[i] : i \in 1..Len(s)}

(* Terms represent x exactly, by increasing exponent, without overlap. *)
Represents(ts, x) ==
    /\ \A i \in 1..Len(ts) : ts[i].d # BZero
    /\ \A i \in 1..(Len(ts)-1) : /\ ts[i].e < ts[i+1].e
                                 /\ ts[i].e + BBitLen(ts[i].d) <= ts[i+1].e
    /\ TermsSum(ts) = x

Shape(m, K, T, ts) ==
    \A i \in 1..Len(ts) :
      LET d == ts[i].d
          w == BBitLen(d) IN
      CASE m = "fixed"   -> w <= K
        [] m = "sliding" -> BOdd(d) /\ w <= K
        [] m = "run"     -> IsOnes(d) /\ (T > 0 => w <= T)
        [] m = "hybrid"  -> BOdd(d) /\ (w <= K \/ (IsOnes(d) /\ w > K /\ (T > 0 => w <= T)))

DictOf(ts, dict) ==
    /\ SortedStrict(dict)
    /\ SetOfSeq(dict) = {ts[i].d : i \in 1..Len(ts)}

Contract(m, K, T, x, ts) == Represents(ts, x) /\ Shape(m, K, T, ts)

(* ---------------------------- design ------------------------------------ *)
(* State of a scan: position h (bits h-1 .. 0 of y remain), terms so far in  *)
(* scanning order (most significant first).                                  *)

Bits(x, l, h) == BMod(BShr(x, l), BPow2(h - l))
MaxOf(a, b) == IF a >= b THEN a ELSE b

FixedStep(x, K, h, out) ==      \* one window
    LET l == MaxOf(h-K, 0)  d == Bits(x, l, h)
    IN [h |-> l, out |-> IF d = BZero THEN out ELSE Append(out, [d |-> d, e |-> l])]

RECURSIVE LowestFrom(_, _)
LowestFrom(x, l) == IF BBit(x, l) = 1 THEN l ELSE LowestFrom(x, l+1)

SlidingStep(x, K, h, out) ==    \* skip a zero, or take a window ending in a one
    IF BBit(x, h-1) = 0 THEN [h |-> h-1, out |-> out]
    ELSE LET l == LowestFrom(x, MaxOf(h-K, 0))
         IN [h |-> l, out |-> Append(out, [d |-> Bits(x, l, h), e |-> l])]

RECURSIVE RunEnd(_, _, _, _)
RunEnd(x, T, h, l) ==           \* lowest position of the run that starts at h-1
    IF l > 0 /\ BBit(x, l-1) = 1 /\ (T = 0 \/ h - l < T) THEN RunEnd(x, T, h, l-1) ELSE l

RunStep(x, T, h, out) ==
    IF BBit(x, h-1) = 0 THEN [h |-> h-1, out |-> out]
    ELSE LET l == RunEnd(x, T, h, h) IN [h |-> l, out |-> Append(out, [d |-> BOnes(h-l), e |-> l])]

LongRunStep(x, K, T, h, out) == \* as RunStep, dropping runs of at most K
    IF BBit(x, h-1) = 0 THEN [h |-> h-1, out |-> out]
    ELSE LET l == RunEnd(x, T, h, h)
         IN [h |-> l, out |-> IF h - l > K THEN Append(out, [d |-> BOnes(h-l), e |-> l]) ELSE out]

SortTerms(ts) == SortSeq(ts, LAMBDA s, t : s.e < t.e)
=============================================================================
