----------------------------- MODULE MC_Helpers -----------------------------
(***************************************************************************)
(* C19.  Definitions of the multi-precision and list helpers, and argument   *)
(* spaces explored exhaustively (small) and by keyed pseudo-random choice.   *)
(* The same run checks the accelerated BigNat operators against BigNatDef.   *)
(***************************************************************************)
EXTENDS Targets, SNum, FiniteSets, TLC

CONSTANTS Seed, MaskN, ExtractX, ListLen, ListHi, SortHi, VecHi, Rounds, PerRound, MaxBits, LargeRuns

VARIABLE st
vars == st

Rng(s) == {s[i] : i \in 1..Len(s)}
SLt(x, y) == SCmp(x, y) < 0
(* bag equality *)
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(s, t) == Len(s) = Len(t) /\ \A v \in Rng(s) : Count(s, v) = Count(t, v)
NonDecr(s) == \A i \in 1..(Len(s)-1) : SCmp(s[i], s[i+1]) <= 0
Incr(s) == \A i \in 1..(Len(s)-1) : SLt(s[i], s[i+1])
(* the elements that differ from their predecessor *)
Dedup(s) == LET idx == SetToSortSeq({i \in 1..Len(s) : i = 1 \/ s[i] # s[i-1]}, LAMBDA a, b : a < b)
            IN [i \in 1..Len(idx) |-> s[idx[i]]]
FirstIndex(n, s) == IF n \in Rng(s) THEN (CHOOSE i \in 1..Len(s) : s[i] = n /\ \A j \in 1..(i-1) : s[j] # n) - 1 ELSE -1

(* bits l..h-1 and no others *)
MaskIs(m, l, h) == BBitLen(m) = (IF h > l THEN h ELSE 0) /\ \A i \in 0..(IF h = 0 THEN 0 ELSE h-1) : BBit(m, i) = (IF i >= l /\ i < h THEN 1 ELSE 0)

LimbsSum(ws, w) == FoldLeft(LAMBDA acc, i : BAdd(BShl(acc, w), ws[Len(ws)+1-i]), BZero, [i \in 1..Len(ws) |-> i])

IsPow2Def(x) == x # BZero /\ x = BPow2(BBitLen(x) - 1)

(* value of a digit string (codes), ignoring underscores; base b *)
Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
ParseVal(b, s) == FoldLeft(LAMBDA acc, c : IF c = 95 THEN acc ELSE BAdd(BMul(acc, BFromInt(b)), BFromInt(Digit(c))), BZero, s)
Wellformed(b, s) == (\E i \in 1..Len(s) : s[i] # 95) /\ \A i \in 1..Len(s) : s[i] = 95 \/ Digit(s[i]) < b

JudgeMask(a, v) ==
    /\ MaskIs(v.mask, a[1], a[2])
    /\ v.ones = BSub(BPow2(a[3]), BOne)
    /\ v.pow2 = BPow2(a[3])
JudgeExtract(a, v) == /\ v.r = BMod(BShr(a[1], a[2]), BPow2(a[3] - a[2]))
                      /\ v.x = a[1]
JudgeUnary(x, v) ==
    LET n == BBitLen(x) IN
    /\ v.ispow2 = IsPow2Def(x)
    /\ Len(v.pow2upto) = n /\ \A i \in 1..n : v.pow2upto[i] = BPow2(i-1)
    /\ Len(v.bitsset) = Cardinality({i \in 0..(n-1) : BBit(x, i) = 1})
    /\ \A i \in 1..Len(v.bitsset) : v.bitsset[i] \in 0..(n-1) /\ BBit(x, v.bitsset[i]) = 1 /\ (i > 1 => v.bitsset[i-1] < v.bitsset[i])
    /\ LimbsSum(v.uint64s, 64) = x /\ Len(v.uint64s) = (n + 63) \div 64 /\ \A i \in 1..Len(v.uint64s) : BBitLen(v.uint64s[i]) <= 64
    /\ LimbsSum([i \in 1..Len(v.bytes) |-> BFromInt(v.bytes[i])], 8) = x /\ Len(v.bytes) = (n + 7) \div 8
    /\ \A i \in 1..Len(v.bytes) : v.bytes[i] \in 0..255
    /\ v.x = x
JudgeMinMax(a, v) ==
    /\ v.min = (IF SCmp(a[1], a[2]) <= 0 THEN a[1] ELSE a[2])
    /\ v.max = (IF SCmp(a[1], a[2]) <= 0 THEN a[2] ELSE a[1])
    /\ v.eq = (a[1] = a[2])
    /\ v.x = a[1] /\ v.y = a[2]
JudgeParse(a, v) == IF Wellformed(a[1], a[2]) THEN v.ok /\ v.x = ParseVal(a[1], a[2]) ELSE ~v.ok
JudgeList(a, v) ==
    LET xs == a[1]  ys == a[2]  n == a[3] IN
    /\ v.index = FirstIndex(n, xs)
    /\ v.contains = (n \in Rng(xs))
    /\ v.clone = xs
    /\ v.concat = xs \o ys
    /\ v.unique = Dedup(xs)
    /\ NonDecr(v.sorted) /\ SameBag(xs, v.sorted)
    /\ v.xs = xs /\ v.ys = ys /\ v.n = n /\ v.xs2 = xs
JudgeSorted(a, v) ==
    LET xs == a[1]  ys == a[2]  n == a[3] IN
    /\ v.contains = (n \in Rng(xs))
    /\ Incr(v.insert) /\ Rng(v.insert) = Rng(xs) \cup {n}
    /\ Incr(v.merge) /\ Rng(v.merge) = Rng(xs) \cup Rng(ys)
    /\ v.xs = xs /\ v.ys = ys /\ v.n = n
Basis(n, i) == [k \in 1..n |-> IF k = i + 1 THEN BOne ELSE BZero]
JudgeVector(a, v) ==
    LET x == a[1]  y == a[2]  s == a[3]  n == a[4][1]  i == a[4][2] IN
    /\ v.add = [k \in 1..Len(x) |-> BAdd(x[k], y[k])]
    /\ v.lsh = [k \in 1..Len(x) |-> BShl(x[k], s)]
    /\ v.basis = Basis(n, i) /\ v.b2 = v.basis
    /\ v.blsh = [k \in 1..n |-> BShl(Basis(n, i)[k], s)]
    /\ v.zero = [k \in 1..n |-> BZero]
    /\ (n = Len(x) => v.badd = [k \in 1..n |-> BAdd(x[k], Basis(n, i)[k])])
    /\ v.u = x /\ v.v = y

Judge(tag, a, r) ==
    r.st = "ok" /\
    LET v == r.v IN
    CASE tag = "h.mask" -> JudgeMask(a, v)
      [] tag = "h.extract" -> JudgeExtract(a, v)
      [] tag = "h.unary" -> JudgeUnary(a, v)
      [] tag = "h.minmax" -> JudgeMinMax(a, v)
      [] tag = "h.parse" -> JudgeParse(a, v)
      [] tag = "h.list" -> JudgeList(a, v)
      [] tag = "h.sorted" -> JudgeSorted(a, v)
      [] tag = "h.vector" -> JudgeVector(a, v)
Check(tag, a) == LET r == Call(tag, a) IN Report(tag, a, Judge(tag, a, r))

(* the accelerated operators agree with their definitions *)
BigAgree(x, y, e) ==
    /\ BAdd(x, y) = DAdd(x, y) /\ BMul(x, y) = DMul(x, y) /\ BCmp(x, y) = DCmp(x, y)
    /\ (BCmp(x, y) >= 0 => BSub(x, y) = DSub(x, y))
    /\ (y # BZero => BDiv(x, y) = DDiv(x, y) /\ BMod(x, y) = DMod(x, y))
    /\ BPow(x, e) = DPow(x, e) /\ BShl(x, e) = DShl(x, e) /\ BShr(x, e) = DShr(x, e)
    /\ BBitLen(x) = DBitLen(x) /\ BBits(x) = DBits(x) /\ BBit(x, e) = DBit(x, e)
    /\ IsNat15(BAdd(x, y)) /\ IsNat15(BMul(x, y))

Boundary == UNION {{BPow2(k), BSub(BPow2(k), BOne), BAdd(BPow2(k), BOne)} :
                   k \in {0, 1, 7, 8, 14, 15, 16, 29, 30, 31, 32, 59, 60, 61, 62, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 599}} \cup {BZero}

SInts(lo, hi) == {SFromInt(i) : i \in lo..hi}
(* alphabets for the parsing helpers: 0 1 7 9 a f A F g _ - space *)
Alpha == {48, 49, 55, 57, 97, 102, 70, 103, 95}

Case(tag, a) == [t |-> "case", tag |-> tag, a |-> a]

Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ \E h \in 0..MaskN : st' = [t |-> "mask", h |-> h]
    \/ \E b \in 0..(ExtractX \div 16) : st' = [t |-> "xs", b |-> b]
    \/ \E x \in Boundary : st' = [t |-> "bnd", x |-> x]
    \/ \E n \in 0..ListLen : st' = [t |-> "list", xs |-> <<>>, n |-> n]
    \/ st' = [t |-> "sorted", xs |-> <<>>, ys |-> <<>>, v |-> -1]
    \/ \E b \in 1..LargeRuns : st' = [t |-> "large", b |-> b]
    \/ st' = [t |-> "text", s |-> <<>>]
    \/ \E s \in 0..2 : \E i \in 0..2 : st' = [t |-> "vec", x |-> <<>>, y |-> <<>>, s |-> s, i |-> i]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
MaskStep == st.t = "mask" /\ \E l \in 0..st.h : st' = Case("h.mask", <<l, st.h, st.h>>)
SmallStep == st.t = "xs" /\ \E i \in 0..15 :
    LET x == 16 * st.b + i IN
    \/ st' = Case("h.unary", BFromInt(x))
    \/ \E l \in 0..10 : \E h \in l..11 : st' = Case("h.extract", <<BFromInt(x), l, h>>)
BndStep == st.t = "bnd" /\
    \/ st' = Case("h.unary", st.x)
    \/ \E y \in Boundary : \E s \in {-1, 1} : \E u \in {-1, 1} :
          st' = Case("h.minmax", <<IF st.x = BZero THEN SPos(st.x) ELSE <<s, st.x>>, IF y = BZero THEN SPos(y) ELSE <<u, y>>>>)
    \/ \E p \in {<<0, 0>>, <<0, 1>>, <<0, 64>>, <<63, 64>>, <<63, 65>>, <<64, 64>>, <<64, 128>>, <<1, 600>>, <<15, 30>>, <<500, 700>>} :
          st' = Case("h.extract", <<st.x, p[1], p[2]>>)
ListStep == st.t = "list" /\ Len(st.xs) < st.n /\ \E v \in SInts(-1, ListHi) : st' = [st EXCEPT !.xs = Append(@, v)]
(* pairs of increasing lists over 0..SortHi, each value in neither, one or both *)
SortedStep == st.t = "sorted" /\ st.v < SortHi /\ \E w \in 0..3 :
    LET v == st.v + 1  x == SFromInt(v - 1) IN
    st' = [st EXCEPT !.v = v, !.xs = IF w \in {1, 3} THEN Append(@, x) ELSE @, !.ys = IF w \in {2, 3} THEN Append(@, x) ELSE @]
TextStep == st.t = "text" /\ Len(st.s) < 4 /\ \E c \in Alpha : st' = [st EXCEPT !.s = Append(@, c)]
VecStep == st.t = "vec" /\ Len(st.x) < 3 /\ \E a, b \in 0..VecHi :
    st' = [st EXCEPT !.x = Append(@, BFromInt(a)), !.y = Append(@, BFromInt(b))]
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        k == R(key, "kind", 8)
        x == Target(<<key, "x">>, MaxBits)
        y == Target(<<key, "y">>, MaxBits)
        n == BBitLen(x)
        l == R(key, "l", n + 4)
        h == l + R(key, "h", 90)
        sv(t) == LET m == RandBits(<<key, t>>, 1 + R(key, <<t, "b">>, 70)) IN IF m = BZero THEN SPos(m) ELSE <<IF R(key, <<t, "s">>, 3) = 0 THEN -1 ELSE 1, m>>
        \* a pool small enough for repeats
        pool == [j \in 1..8 |-> sv(<<"p", j>>)]
        lst(t, m) == [j \in 1..m |-> pool[1 + R(key, <<t, j>>, 8)]]
        srt(t, m) == SetToSortSeq(Rng(lst(t, m)), SLt)
        digs == [j \in 1..(1 + R(key, "dl", 60)) |-> LET c == R(key, <<"d", j>>, 18) IN
                   IF c >= 16 THEN 95 ELSE IF c < 10 THEN 48 + c ELSE IF R(key, <<"u", j>>, 4) = 0 THEN 55 + c ELSE 87 + c]
        bins == [j \in 1..(1 + R(key, "dl", 150)) |-> LET c == R(key, <<"d", j>>, 7) IN IF c = 6 THEN 95 ELSE 48 + (c % 2)]
    IN st' = CASE k = 0 -> Case("h.unary", x)
               [] k = 1 -> Case("h.extract", <<x, l, h>>)
               [] k = 2 -> Case("h.minmax", <<sv("a"), IF R(key, "eq", 4) = 0 THEN sv("a") ELSE sv("b")>>)
               [] k = 3 -> Case("h.parse", IF R(key, "base", 2) = 0 THEN <<16, digs>> ELSE <<2, bins>>)
               [] k = 4 -> Case("h.list", <<lst("xs", R(key, "nx", 24)), lst("ys", R(key, "ny", 8)), IF R(key, "in", 2) = 0 THEN pool[1] ELSE sv("n")>>)
               [] k = 5 -> Case("h.sorted", <<srt("xs", R(key, "nx", 12)), srt("ys", R(key, "ny", 12)), IF R(key, "in", 2) = 0 THEN pool[1] ELSE sv("n")>>)
               [] k = 6 -> LET m == 1 + R(key, "m", 6) IN
                           Case("h.vector", <<[j \in 1..m |-> RandBits(<<key, "vx", j>>, R(key, <<"vb", j>>, 200))],
                                              [j \in 1..m |-> RandBits(<<key, "vy", j>>, R(key, <<"vc", j>>, 200))],
                                              R(key, "vs", 130), <<m, R(key, "vi", m)>>>>)
               [] k = 7 -> [t |-> "big", x |-> RandBits(<<key, "bx">>, R(key, "bxn", 120)), y |-> RandBits(<<key, "by">>, R(key, "byn", 90)), e |-> R(key, "be", 20)]
(* the same helpers far beyond the sizes of everyday arguments *)
Large(b) ==
    LET key == <<Seed, "large", b>>
        k == b % 7
        x == Target(<<key, "x">>, <<700, 1100, 1500, 2100>>[1 + R(key, "xb", 4)])
        sz == <<31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300>>[1 + R(key, "sz", 15)]
        sv(t) == LET m == RandBits(<<key, t>>, 1 + R(key, <<t, "b">>, 70)) IN IF m = BZero THEN SPos(m) ELSE <<IF R(key, <<t, "s">>, 3) = 0 THEN -1 ELSE 1, m>>
        pool == TLCEval([j \in 1..(2 * sz) |-> IF R(key, "near", 2) = 0 THEN sv(<<"p", j>>) ELSE SFromInt(R(key, <<"q", j>>, 2 * sz) - 20)])
        lst(t, m) == [j \in 1..m |-> pool[1 + R(key, <<t, j>>, 2 * sz)]]
        runs(t, m) == [j \in 1..m |-> pool[1 + (j \div 7)]]
        srt(t, m) == SetToSortSeq(Rng(lst(t, m)), SLt)
        wide == <<1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000>>[1 + R(key, "wd", 9)]
        digs == [j \in 1..(wide \div 4) |-> LET c == R(key, <<"d", j>>, 34) IN
                   IF c >= 32 THEN 95 ELSE IF c < 20 THEN 48 + (c % 10) ELSE IF R(key, <<"u", j>>, 4) = 0 THEN 55 + 10 + (c % 6) ELSE 87 + 10 + (c % 6)]
        bins == [j \in 1..wide |-> LET c == R(key, <<"d", j>>, 17) IN IF c = 16 THEN 95 ELSE 48 + (c % 2)]
    IN CASE k = 0 -> Case("h.mask", <<R(key, "l", wide + 1), wide, wide>>)
         [] k = 1 -> LET l == R(key, "l", BBitLen(x) + 200) IN Case("h.extract", <<x, l, l + R(key, "h", wide)>>)
         [] k = 2 -> Case("h.unary", x)
         [] k = 3 -> Case("h.list", <<IF R(key, "rp", 3) = 0 THEN runs("xs", sz) ELSE lst("xs", sz), lst("ys", R(key, "ny", sz)), IF R(key, "in", 2) = 0 THEN pool[1] ELSE sv("n")>>)
         [] k = 4 -> Case("h.sorted", <<srt("xs", sz), srt("ys", R(key, "ny", 2 * sz)), IF R(key, "in", 2) = 0 THEN pool[1] ELSE sv("n")>>)
         [] k = 5 -> Case("h.parse", IF R(key, "base", 2) = 0 THEN <<16, digs>> ELSE <<2, bins>>)
         [] k = 6 -> Case("h.vector", <<[j \in 1..sz |-> RandBits(<<key, "vx", j>>, R(key, <<"vb", j>>, 150))],
                                        [j \in 1..sz |-> RandBits(<<key, "vy", j>>, R(key, <<"vc", j>>, 150))],
                                        IF R(key, "ls", 2) = 0 THEN R(key, "vs", 130) ELSE wide, <<sz, R(key, "vi", sz)>>>>)
PickLarge == st.t = "large" /\ st' = Large(st.b)
Next == PickLarge \/ Root \/ MaskStep \/ SmallStep \/ BndStep \/ ListStep \/ SortedStep \/ TextStep \/ VecStep \/ PickRnd
Spec == Init /\ [][Next]_vars

ImplInv ==
    CASE st.t = "case" -> Check(st.tag, st.a)
      [] st.t = "list" -> \A m \in {0, 1, 3} :
             Check("h.list", <<st.xs, IF m = 0 THEN <<>> ELSE SubSeq(st.xs, 1, Len(st.xs) \div 2), SFromInt(m)>>)
      [] st.t = "sorted" -> \A n \in {-2, -1, 0, 2, SortHi, SortHi + 1} : Check("h.sorted", <<st.xs, st.ys, SFromInt(n)>>)
      [] st.t = "text" -> \A b \in {2, 16} : (\E i \in 1..Len(st.s) : st.s[i] # 95) => Check("h.parse", <<b, st.s>>)
      [] st.t = "vec" -> \A n \in {1, 3} : (st.x # <<>> /\ st.i < n) => Check("h.vector", <<st.x, st.y, st.s, <<n, st.i>>>>)
      [] OTHER -> TRUE
ModelInv == /\ st.t = "big" => BigAgree(st.x, st.y, st.e)
            /\ (st.t = "bnd" /\ BBitLen(st.x) <= 70) => (BigAgree(st.x, BPow2(31), 7) /\ BigAgree(BPow2(31), st.x, 3))
=============================================================================
