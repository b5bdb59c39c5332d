----------------------------- MODULE SeqDesign -----------------------------
(***************************************************************************)
(* The two sequence methods over small integers: the Bos-Coster loop as a    *)
(* transition system (module MC_Seq has the actions), continued fractions as *)
(* recursive definitions over Product and Plus.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Rg(s) == {s[i] : i \in 1..Len(s)}
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

IsChainSet(S) ==     \* ascending order of S is an addition chain
    1 \in S /\ \A v \in S : v >= 1 /\ (v = 1 \/ \E a \in S : a < v /\ (v - a) \in S /\ v - a < v)
IsChainI(c) ==
    /\ Len(c) > 0 /\ c[1] = 1 /\ Cardinality(Rg(c)) = Len(c)
    /\ \A k \in 2..Len(c) : \E i, j \in 1..(k-1) : c[k] = c[i] + c[j]

(* ---- heuristics --------------------------------------------------------- *)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n-1)
(* Sets of suggestions a heuristic may make for target t given proto f; the  *)
(* empty set means it has none.                                               *)
HalvingS(f, t) ==
    LET q == t \div SetMax(f) IN
    IF q < 2 THEN {}
    ELSE LET u == Log2(q)
             k == t \div P2(u)
             d == t - k * P2(u)
         IN {{k * P2(e) : e \in 0..(u-1)} \cup (IF d = 0 THEN {} ELSE {k * P2(u), d})}
DeltaS(f, t) == {{t - SetMax(f)}}
(* Any difference to an element that leaves at least another element of f:   *)
(* an over-approximation of the closest-pair rule.                            *)
ApproxS(f, t) == {{t - b} : b \in {b \in f : \E a \in f : a <= b /\ a + b <= t}}
SuggestS(h, f, t) == CASE h = "halving" -> HalvingS(f, t) [] h = "delta" -> DeltaS(f, t) [] h = "approx" -> ApproxS(f, t)
RECURSIVE FirstS(_, _, _)
FirstS(hs, f, t) == IF hs = <<>> THEN {} ELSE LET s == SuggestS(hs[1], f, t) IN IF s # {} THEN s ELSE FirstS(Tail(hs), f, t)

(* ---- continued fractions --------------------------------------------------- *)
ProductI(a, b) == a \o [i \in 1..(Len(b)-1) |-> a[Len(a)] * b[i+1]]
PlusI(a, r) == Append(a, a[Len(a)] + r)
IsPow2I(n) == n = P2(Log2(n))
ISqrt(n) == SetMax({k \in 1..n : k * k <= n})
RECURSIVE HalvesDown(_, _, _)
HalvesDown(k, s, double) == IF k <= 1 THEN <<>> ELSE <<k>> \o HalvesDown(k \div P2(s), IF double THEN 2*s ELSE s, double)
Ks(s, n) ==
    CASE s = "binary" -> <<n \div 2>>
      [] s = "co_binary" -> <<(n + (n % 2)) \div 2>>
      [] s = "dichotomic" -> <<n \div P2((Log2(n) + 1) \div 2)>>
      [] s = "sqrt" -> <<ISqrt(n)>>
      [] s = "total" -> [i \in 1..(n-2) |-> i + 1]
      [] s = "dyadic" -> HalvesDown(n \div 2, 1, FALSE)
      [] s = "fermat" -> HalvesDown(n \div 2, 1, TRUE)
RECURSIVE MinChainI(_, _), CFChainI(_, _)
MinChainI(s, n) ==
    IF IsPow2I(n) THEN [i \in 1..(Log2(n)+1) |-> P2(i-1)]
    ELSE IF n = 3 THEN <<1, 2, 3>>
    ELSE FoldLeft(LAMBDA best, k : LET c == CFChainI(s, <<k, n>>) IN IF best = <<>> \/ Len(c) < Len(best) THEN c ELSE best, <<>>, Ks(s, n))
(* ns ascending; repeated values allowed *)
CFChainI(s, ns) ==
    LET k == Len(ns) IN
    IF k = 1 \/ ns[k-1] <= 1 THEN MinChainI(s, ns[k])
    ELSE LET q == ns[k] \div ns[k-1]
             r == ns[k] % ns[k-1]
             rest == SubSeq(ns, 1, k-1)
             cq == MinChainI(s, q)
             ins == IF r \in Rg(rest) THEN rest ELSE SortSeq(Append(rest, r), LAMBDA a, b : a < b)
         IN IF r = 0 THEN ProductI(CFChainI(s, rest), cq)
            ELSE PlusI(ProductI(CFChainI(s, ins), cq), r)
(* A strategy must choose 2 <= k < n for n that is neither a power of two nor 3. *)
KsOk(s, n) == (~IsPow2I(n) /\ n > 3) => Ks(s, n) # <<>> /\ \A k \in Rg(Ks(s, n)) : 2 <= k /\ k < n
=============================================================================
