------------------------------ MODULE Targets ------------------------------
(* Families of target integers with the bit patterns the algorithms branch  *)
(* on.  Everything is a function of a key, so runs are reproducible.        *)
EXTENDS BigNat, Impl, SequencesExt

R(key, name, m) == Rand(<<key, name>>, m)

(* a run of l ones at position s *)
RunAt(l, s) == BShl(BOnes(l), s)

(* Concatenation, from the top, of runs of ones l[i] separated by gaps of   *)
(* g[i] >= 1 zeros (g[i] zeros are appended after run i).                    *)
RunsNum(l, g) ==
    FoldLeft(LAMBDA acc, i : BShl(BAdd(BShl(acc, l[i]), BOnes(l[i])), g[i]),
             BZero, [i \in 1..Len(l) |-> i])

(* Runs whose lengths lie around w (w-1 .. w+2, multiples), gaps short.     *)
RunsNear(key, w, n, lastgap) ==
    LET len(i) == LET c == R(key, <<"l", i>>, 7) IN
                  IF c = 0 THEN w ELSE IF c = 1 THEN w+1 ELSE IF c = 2 THEN (IF w > 1 THEN w-1 ELSE 1)
                  ELSE IF c = 3 THEN 2*w ELSE IF c = 4 THEN 2*w+1 ELSE IF c = 5 THEN 1 ELSE w+2
        gap(i) == IF i = n THEN lastgap
                  ELSE LET c == R(key, <<"g", i>>, 4) IN
                  IF c = 0 THEN 1 ELSE IF c = 1 THEN w ELSE IF c = 2 THEN 2 ELSE 1 + R(key, <<"h", i>>, 5)
    IN RunsNum([i \in 1..n |-> len(i)], [i \in 1..n |-> gap(i)])

SparseNum(key, bits, n) ==
    FoldLeft(LAMBDA acc, i : LET b == BPow2(R(key, <<"s", i>>, bits))
                             IN IF BBit(acc, BBitLen(b)-1) = 1 THEN acc ELSE BAdd(acc, b),
             BZero, [i \in 1..n |-> i])

(* 2^a - 2^b +- 2^c +- 1 *)
Solinas(key, bits) ==
    LET a == 4 + R(key, "sa", bits-4)
        b == 1 + R(key, "sb", a-2)
        c == R(key, "sc", b)
        t == BSub(BPow2(a), BPow2(b))
        u == IF R(key, "sd", 2) = 0 THEN BAdd(t, BPow2(c)) ELSE BSub(t, BPow2(c))
    IN IF R(key, "se", 2) = 0 /\ BLt(BOne, u) THEN BSub(u, BOne) ELSE BAdd(u, BOne)

(* A target of at most `bits` bits (bits >= 8), at least 1. *)
Target(key, bits) ==
    LET f == R(key, "fam", 14)
        k == 2 + R(key, "k", bits-2)
        n == CASE f = 0 -> BPow2(k-1)
               [] f = 1 -> BOnes(k)
               [] f = 2 -> BSub(BPow2(k), BFromInt(1 + R(key, "c", IF k > 12 THEN 4096 ELSE 3)))
               [] f = 3 -> BAdd(BPow2(k-1), BFromInt(R(key, "c", IF k > 12 THEN 4096 ELSE 3)))
               [] f = 4 -> Solinas(key, bits)
               [] f = 5 -> Solinas(<<key, 1>>, bits)
               [] f = 6 -> SparseNum(key, bits, 2 + R(key, "n", 6))
               [] f = 7 -> BSub(BOnes(bits), SparseNum(key, bits-1, 1 + R(key, "n", 6)))
               [] f = 8 -> LET w == 1 + R(key, "w", IF bits > 64 THEN 18 ELSE 4)
                           IN RunsNear(key, w, 1 + R(key, "n", 6), R(key, "z", 4))
               [] f = 9 -> LET w == 1 + R(key, "w", 6)
                           IN RunsNear(key, w, 1 + R(key, "n", 12), R(key, "z", 3))
               [] f = 10 -> RunAt(1 + R(key, "w", bits \div 2), R(key, "s", bits \div 2))
               [] f = 11 -> LET p == BAdd(BOne, RandBits(<<key, "p">>, 1 + R(key, "w", 12)))   \* periodic
                                l == BBitLen(p) + R(key, "y", 3)
                            IN FoldLeft(LAMBDA acc, i : BAdd(BShl(acc, l), p), BZero,
                                        [i \in 1..(1 + (bits - l) \div (2*l)) |-> i])
               [] OTHER -> RandBits(<<key, "r">>, k)
        m == IF BBitLen(n) > bits THEN BShr(n, BBitLen(n) - bits) ELSE n
    IN IF m = BZero THEN BOne ELSE m

(* A number of the same length that agrees with x (of at least 66 bits) in    *)
(* its low 64 bits, and one that agrees with it in all but its low 64 bits.   *)
FlipBit(x, j) == IF BBit(x, j) = 1 THEN BSub(x, BPow2(j)) ELSE BAdd(x, BPow2(j))
TwinLow(key, x) == FlipBit(x, 64 + R(key, "tw", BBitLen(x) - 65))
TwinHigh(key, x) == FlipBit(x, R(key, "twh", 64))
=============================================================================
