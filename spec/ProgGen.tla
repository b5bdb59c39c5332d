------------------------------- MODULE ProgGen -------------------------------
(* Pseudo-random duplicate-free programs (functions of a key).               *)
EXTENDS AddChain, Impl, SequencesExt

PR(key, name, m) == Rand(<<key, name>>, m)
State0 == [p |-> <<>>, c |-> <<BOne>>]
TryOp(S, i, j) ==
    LET v == BAdd(S.c[i+1], S.c[j+1]) IN
    IF v \in Range(S.c) THEN S ELSE [p |-> Append(S.p, <<i, j>>), c |-> Append(S.c, v)]

(* styles: 0 any, 1 doubling runs whose intermediates are used again,        *)
(* 2 sums with the last element (long expressions), 3 small values first,     *)
(* 4 runs of ones, 5 mixed star steps                                          *)
RandProgStep(key, S, k, style) ==
    LET L == Len(S.p)
        r == PR(<<key, k>>, "r", 12)
        any(t) == PR(<<key, k>>, t, L + 1)
        near(t) == L - PR(<<key, k>>, t, IF L < 4 THEN L + 1 ELSE 4)
        flip == PR(<<key, k>>, "flip", 2) = 0
        op(i, j) == IF flip THEN TryOp(S, i, j) ELSE TryOp(S, j, i)
    IN CASE style = 0 -> op(any("i"), IF r < 4 THEN any("i") ELSE any("j"))
         [] style = 1 -> IF r < 8 THEN op(L, L) ELSE IF r < 10 THEN op(L, near("j")) ELSE op(any("i"), near("j"))
         [] style = 2 -> IF r < 8 THEN op(L, any("j")) ELSE IF r < 10 THEN op(L, L) ELSE op(near("i"), any("j"))
         [] style = 3 -> IF L < 8 THEN op(any("i"), any("j")) ELSE op(near("i"), IF r < 6 THEN any("j") ELSE near("i"))
         [] style = 4 -> IF r < 3 /\ L > 0 THEN op(0, L) ELSE IF r < 8 THEN op(L, L) ELSE op(L, any("j"))
         [] OTHER -> IF r < 5 THEN op(L, L) ELSE op(L, any("j"))
RandProg(key, n, style) == FoldLeft(LAMBDA S, k : RandProgStep(key, S, k, style), State0, [k \in 1..n |-> k]).p

(* a program that adds a list of all-ones values by doubling and adding       *)
(* earlier runs: 2^a-1 and 2^b-1 give 2^(a+b)-1                                *)
Doubled(S, i, s) == FoldLeft(LAMBDA T, k : IF k = 1 THEN TryOp(T, i, i) ELSE TryOp(T, Len(T.p), Len(T.p)), S, [k \in 1..s |-> k])
Pick2(key, k, s) == s[1 + PR(<<key, k>>, "pick", Len(s))]
RunsProgTo(key, n, cap) ==
    LET f == FoldLeft(LAMBDA F, k :
                LET a == Pick2(key, k, F.runs)
                    b == F.runs[Len(F.runs)]
                    T == Doubled(F.S, b[1], a[2])
                    U == IF Len(T.p) > Len(F.S.p) THEN (IF PR(<<key, k>>, "flip", 2) = 0 THEN TryOp(T, a[1], Len(T.p)) ELSE TryOp(T, Len(T.p), a[1])) ELSE F.S
                IN IF a[2] + b[2] > cap THEN F ELSE [S |-> U, runs |-> IF Len(U.p) > Len(T.p) THEN Append(F.runs, <<Len(U.p), a[2] + b[2]>>) ELSE F.runs],
              [S |-> State0, runs |-> <<<<0, 1>>>>], [k \in 1..n |-> k])
    IN f.S.p
RunsProg(key, n) == RunsProgTo(key, n, 300)

(* long shifts: segments of s doublings with sums of segment ends in between *)
ShiftsProg(key, n, sizes) ==
    FoldLeft(LAMBDA F, k :
        LET s == Pick2(<<key, "s">>, k, sizes)
            T == [p |-> F.S.p \o [i \in 1..s |-> IF i = 1 THEN <<F.ends[Len(F.ends)], F.ends[Len(F.ends)]>> ELSE <<Len(F.S.p) + i - 1, Len(F.S.p) + i - 1>>],
                  c |-> F.S.c \o [i \in 1..s |-> BShl(F.S.c[F.ends[Len(F.ends)]+1], i)]]
            e == Pick2(<<key, "e">>, k, F.ends)
            U == IF PR(<<key, k>>, "flip", 2) = 0 THEN TryOp(T, e, Len(T.p)) ELSE TryOp(T, Len(T.p), e)
            mid == IF s > 2 /\ PR(<<key, k>>, "mid", 3) = 0 THEN TryOp(U, Len(U.p), Len(F.S.p) + 1 + PR(<<key, k>>, "m", s)) ELSE U
        IN [S |-> mid, ends |-> Append(F.ends, Len(mid.p))],
      [S |-> State0, ends |-> <<0>>], [k \in 1..n |-> k]).S.p
(* 2^n - 1 by doubling and adding one *)
Ladder(n) == [k \in 1..(2*n) |-> IF k % 2 = 1 THEN <<k-1, k-1>> ELSE <<k-1, 0>>]
=============================================================================
