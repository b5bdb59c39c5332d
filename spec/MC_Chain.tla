------------------------------ MODULE MC_Chain ------------------------------
(***************************************************************************)
(* C02.  States are finite integer sequences, grown one element at a time:  *)
(* `free` sequences take any value of a small range, `valid` sequences only *)
(* legal next values (any order), and `near` sequences are valid ones with  *)
(* one change.  In every state the implementation's verdicts are compared   *)
(* with the definition.  Random longer ones use arbitrary-precision values. *)
(***************************************************************************)
EXTENDS ChainGen, SNum, TLC

CONSTANTS Seed, NegVal, PosVal, FreeLen, ValidLen, NearLen, Rounds, PerRound, MaxRandLen, LongRuns

VARIABLE st
vars == st

(* -------- the definition, over plain (small) integers -------- *)
Pairs(k, sumsto(_, _)) == {p \in (0..(k-1)) \X (0..(k-1)) : p[1] <= p[2] /\ sumsto(p[1], p[2])}

(* Definition over either number representation: zero, one, plus, less. *)
ValidDef(c, one, plus(_, _)) ==
    /\ Len(c) > 0
    /\ c[1] = one
    /\ NoRepeat(c)
    /\ \A k \in 2..Len(c) : \E i \in 1..(k-1) : \E j \in i..(k-1) : plus(c[i], c[j]) = c[k]

AscDef(c, one, less(_, _)) == Len(c) > 0 /\ c[1] = one /\ \A i \in 1..(Len(c)-1) : less(c[i], c[i+1])

JudgeWith(a, r, one, zero, plus(_, _), less(_, _)) ==
    LET c == a[1]  ns == a[2]  tss == a[3]
        valid == /\ ValidDef(c, one, plus)
                 /\ \A i \in 1..Len(c) : c[i] # zero
        opset(k) == Pairs(k-1, LAMBDA i, j : plus(c[i+1], c[j+1]) = c[k])
    IN
    r.st = "ok" /\
    LET v == r.v IN
    /\ v.valid = valid
    /\ v.asc = AscDef(c, one, less)
    /\ Len(v.prod) = Len(ns) /\ \A i \in 1..Len(ns) : v.prod[i] = (valid /\ c[Len(c)] = ns[i])
    /\ Len(v.sup) = Len(tss) /\ \A i \in 1..Len(tss) : v.sup[i] = (valid /\ Range(tss[i]) \subseteq Range(c))
    /\ Len(v.ops) = Len(c)
    /\ \A k \in 1..Len(c) :
         LET d == opset(k) IN
         /\ Range(v.ops[k]) = d
         /\ Len(v.ops[k]) = Cardinality(d)
         /\ v.op[k].ok = (d # {})
         /\ (d # {} => <<v.op[k].i, v.op[k].j>> \in d)
    /\ v.progok = valid
    /\ (valid => /\ v.same
                 /\ Len(v.prog) = Len(c) - 1
                 /\ \A k \in 1..Len(v.prog) : v.prog[k] \in opset(k+1))
    /\ v.kept

Judge(tag, a, r) ==
    IF tag = "chain" THEN JudgeWith(a, r, 1, 0, LAMBDA x, y : x + y, LAMBDA x, y : x < y)
    ELSE JudgeWith(a, r, SFromInt(1), SFromInt(0), SAdd, LAMBDA x, y : SCmp(x, y) < 0)

Check(tag, a) == LET r == Call("chain", a) IN
                 /\ Tally("cov:valid", r.st = "ok" /\ r.v.valid)
                 /\ Tally("cov:unsorted-valid", r.st = "ok" /\ r.v.valid /\ ~r.v.asc)
                 /\ Report(tag, a, Judge(tag, a, r))

(* arguments for a small sequence: ask about every member, neighbours, and   *)
(* target lists inside and outside *)
Args(c) ==
    LET n == Len(c)
        last == IF n = 0 THEN 1 ELSE c[n]
    IN << c, <<last, last + 1, last - 1, IF n > 1 THEN c[n-1] ELSE 2, 0>>,
          << <<>>, c, <<last, last>>, <<1, last + 1>>, IF n > 2 THEN <<c[n-1], c[2], 1>> ELSE <<1>>, <<7>>, <<0>>, <<-1>> >> >>

IntSums(c) == {c[i] + c[j] : i, j \in 1..Len(c)} \ Range(c)

Init == st = [t |-> "root"]
Root == st.t = "root" /\
    \/ st' = [t |-> "free", c |-> <<>>]
    \/ st' = [t |-> "valid", c |-> <<1>>]
    \/ \E b \in 1..Rounds : st' = [t |-> "rnd", b |-> b]
Free  == st.t = "free" /\ Len(st.c) < FreeLen /\ \E v \in (0 - NegVal)..PosVal : st' = [t |-> "free", c |-> Append(st.c, v)]
Grow  == st.t = "valid" /\ Len(st.c) < ValidLen /\ \E v \in IntSums(st.c) : st' = [t |-> "valid", c |-> Append(st.c, v)]
Near  == st.t = "valid" /\ Len(st.c) <= NearLen /\
         LET c == st.c  n == Len(c) IN
         \/ \E i \in 1..n : st' = [t |-> "near", c |-> [j \in 1..(n-1) |-> IF j < i THEN c[j] ELSE c[j+1]]]
         \/ \E i \in 1..n : \E d \in {-1, 1} : st' = [t |-> "near", c |-> [c EXCEPT ![i] = @ + d]]
         \/ \E i, j \in 1..n : i < j /\ st' = [t |-> "near", c |-> [c EXCEPT ![i] = c[j], ![j] = c[i]]]
         \/ \E i \in 1..n : st' = [t |-> "near", c |-> Append(c, c[i])]
         \/ \E i \in 1..n : st' = [t |-> "near", c |-> [c EXCEPT ![i] = 0 - @]]
PickRnd == st.t = "rnd" /\ \E i \in 1..PerRound :
    LET key == <<Seed, st.b, i>>
        len == 2 + Rand(<<key, "len">>, MaxRandLen)
        c0 == RandChain(key, len, Rand(<<key, "sty">>, 4))
        n0 == Len(c0)
        sc == [j \in 1..n0 |-> SPos(c0[j])]
        sh == Rand(<<key, "mut">>, 8)
        p == 1 + Rand(<<key, "p">>, n0)
        q == 1 + Rand(<<key, "q">>, n0)
        c == CASE sh = 0 -> [sc EXCEPT ![p] = SAdd(@, SFromInt(1))]
               [] sh = 1 -> [sc EXCEPT ![p] = sc[q], ![q] = sc[p]]
               [] sh = 2 -> Append(sc, sc[p])
               [] sh = 3 -> [sc EXCEPT ![p] = SNeg(@)]
               [] sh = 4 -> SortSeq(sc, LAMBDA x, y : SCmp(x, y) < 0)
               [] OTHER -> sc
        n == Len(c)
    IN st' = [t |-> "big", a |-> << c, <<c[n], SAdd(c[n], SFromInt(1)), c[p]>>,
                                    << c, <<c[p], c[q], c[1]>>, <<SAdd(c[n], SFromInt(1))>>, <<c[1], SAdd(c[p], c[p])>> >> >>]
(* Elements near machine-word boundaries, in any order, with sums reduced    *)
(* modulo the word: what fixed-width arithmetic would confuse with a sum.    *)
Widths == <<8, 16, 31, 32, 53, 62, 63, 64, 64, 65, 128>>
PickWord == st.t = "rnd" /\ \E i \in 1..(PerRound \div 2) :
    LET key == <<Seed, "word", st.b, i>>
        w == Widths[1 + Rand(<<key, "w">>, 11)]
        chainy == Rand(<<key, "chainy">>, 3) = 0
        elt(k) ==
            LET d == SFromInt(Rand(<<key, k, "d">>, 7) - 3)
                c == Rand(<<key, k, "kind">>, 6)
                e == w - Rand(<<key, k, "e">>, 3)
            IN CASE c = 0 -> SFromInt(Rand(<<key, k, "small">>, 6) - 1)
                 [] c = 1 -> SNeg(SAdd(SPos(BPow2(e)), d))
                 [] c = 2 -> SPos(RandBits(<<key, k, "any">>, w))
                 [] OTHER -> SAdd(SPos(BPow2(e)), d)
        n == 3 + Rand(<<key, "n">>, 6)
        c == FoldLeft(LAMBDA s, k :
                IF k = 1 THEN Append(s, IF chainy \/ Rand(<<key, "one">>, 2) = 0 THEN SFromInt(1) ELSE elt(k))
                ELSE LET x == s[1 + Rand(<<key, k, "x">>, k-1)]  y == s[1 + Rand(<<key, k, "y">>, k-1)]
                         z == SAdd(x, y)
                         how == Rand(<<key, k, "how">>, 5)
                     IN Append(s, IF how = 0 THEN z
                                  ELSE IF how = 1 THEN <<IF BMod(z[2], BPow2(w)) = BZero THEN 0 ELSE z[1], BMod(z[2], BPow2(w))>>
                                  ELSE IF how = 2 THEN SAdd(z, SPos(BPow2(w)))
                                  ELSE elt(k)),
              <<>>, [k \in 1..n |-> k])
        m == Len(c)
        p == 1 + Rand(<<key, "p">>, m)
    IN st' = [t |-> "big", a |-> << c, <<c[m], SAdd(c[m], SPos(BPow2(w))), SNeg(c[m]), c[p]>>,
                                    << c, <<c[p], c[m]>>, <<SAdd(c[p], SPos(BPow2(w)))>>, <<SNeg(c[p])>> >> >>]
(* Long chains: one, its doublings and sums, several hundred elements.        *)
PickLong == st.t = "rnd" /\ st.b <= LongRuns /\
    LET key == <<Seed, "long", st.b>>
        n == 200 + Rand(<<key, "n">>, 140)
        ch == FoldLeft(LAMBDA s, k : LET d == Rand(<<key, k>>, 40) IN
                 IF d < 20 THEN Append(s, SAdd(s[k], s[1])) ELSE Append(s, SAdd(s[k], s[k - (d % 4)])) ,
                 [k \in 1..4 |-> SFromInt(k)], [k \in 1..n |-> k + 3])
        m == Len(ch)
        c == CASE st.b % 4 = 0 -> Append(ch, SAdd(ch[m], SAdd(ch[m], SFromInt(1))))
               [] st.b % 4 = 1 -> Append(ch, ch[1 + Rand(<<key, "dup">>, m)])
               [] OTHER -> ch
    IN st' = [t |-> "big", a |-> << c, <<c[Len(c)]>>, << <<c[m], c[2], c[m \div 2]>>, <<SAdd(c[m], c[m])>> >> >>]
Next == PickWord \/ PickLong \/ Root \/ Free \/ Grow \/ Near \/ PickRnd
Spec == Init /\ [][Next]_vars

ImplInv ==
    CASE st.t \in {"free", "valid", "near"} -> Check("chain", Args(st.c))
      [] st.t = "big" -> Check("chainbig", st.a)
      [] OTHER -> TRUE

(* every grown sequence is a chain by definition, and the accelerated        *)
(* IsAddChain agrees with the definition (small naturals only)               *)
ModelInv ==
    /\ st.t = "valid" => ValidDef(st.c, 1, LAMBDA x, y : x + y)
    /\ (st.t \in {"free", "near", "valid"} /\ \A i \in 1..Len(st.c) : st.c[i] >= 0) =>
          LET c == [i \in 1..Len(st.c) |-> BFromInt(st.c[i])] IN IsAddChain(c) = IsAddChainDef(c)
=============================================================================
