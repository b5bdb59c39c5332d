------------------------------ MODULE ChainGen ------------------------------
(* Pseudo-random addition chains (functions of a key) and the growth steps   *)
(* used by the exhaustive models.                                            *)
EXTENDS AddChain, Impl, SequencesExt

(* Sums of two elements of c that are not in c: the legal next values. *)
NextVals(c) == {BAdd(c[i], c[j]) : i, j \in 1..Len(c)} \ Range(c)

(* Insert steps up to length n; styles: 0 mixed, 1 mostly doubling of the    *)
(* last, 2 any two elements (leads to unsorted chains), 3 star steps.        *)
RandChain(key, n, style) ==
    FoldLeft(LAMBDA c, k :
        LET L == Len(c)
            r == Rand(<<key, k>>, 8)
            pick(tag) == 1 + Rand(<<key, k, tag>>, L)
            i == IF style = 2 \/ r = 0 THEN pick("i") ELSE L
            j == IF style = 1 THEN (IF r < 6 THEN i ELSE pick("j"))
                 ELSE IF style = 0 THEN (IF r < 3 THEN i ELSE pick("j")) ELSE pick("j")
            v == BAdd(c[i], c[j])
        IN IF v \in Range(c) THEN c ELSE Append(c, v),
      <<BOne>>, [k \in 1..n |-> k])

(* Union of random chains for related values, in insertion order: redundant *)
RandUnion(key, n, m) ==
    FoldLeft(LAMBDA c, k :
        LET d == RandChain(<<key, "u", k>>, n, k % 4)
        IN c \o SelectSeq(d, LAMBDA v : v \notin Range(c)),
      <<BOne>>, [k \in 1..m |-> k])

IsSubseqOf(s, t) ==      \* for sequences without repeats
    /\ Range(s) \subseteq Range(t)
    /\ LET pos(v) == CHOOSE i \in 1..Len(t) : t[i] = v
       IN \A i \in 1..(Len(s)-1) : pos(s[i]) < pos(s[i+1])

Ascending(c) == \A i \in 1..(Len(c)-1) : BLt(c[i], c[i+1])
=============================================================================
