----------------------------- MODULE BigNatDef -----------------------------
(***************************************************************************)
(* Natural numbers of arbitrary size as ordinary TLA+ values: little-endian *)
(* sequences of base-2^15 limbs without a leading (last) zero limb.  Zero   *)
(* is the empty sequence.  TLC integers are 32 bit, the properties quantify *)
(* over 1024-bit targets, hence this module.                                *)
(*                                                                          *)
(* These are the definitions.  Module BigNat declares the same operators    *)
(* for TLC's use, where they are evaluated by java.math.BigInteger;         *)
(* MC_BigNat checks that the two agree.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 32768

IsNat15(s) ==
    /\ \A i \in 1..Len(s) : s[i] \in 0..(Base-1)
    /\ (Len(s) > 0 => s[Len(s)] # 0)

RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s)-1)) ELSE s

Limb(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

RECURSIVE DFromInt(_)
DFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o DFromInt(n \div Base)

RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, i, c) ==
    IF i > Len(x) /\ i > Len(y) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == Limb(x, i) + Limb(y, i) + c
         IN <<t % Base>> \o AddFrom(x, y, i+1, t \div Base)
DAdd(x, y) == AddFrom(x, y, 1, 0)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, i) ==
    IF i = 0 THEN 0
    ELSE IF x[i] < y[i] THEN -1
    ELSE IF x[i] > y[i] THEN 1
    ELSE CmpFrom(x, y, i-1)
DCmp(x, y) == IF Len(x) < Len(y) THEN -1
              ELSE IF Len(x) > Len(y) THEN 1
              ELSE CmpFrom(x, y, Len(x))

RECURSIVE SubFrom(_, _, _, _)
SubFrom(x, y, i, b) ==
    IF i > Len(x) THEN <<>>
    ELSE LET t == x[i] - Limb(y, i) - b
         IN <<t % Base>> \o SubFrom(x, y, i+1, IF t < 0 THEN 1 ELSE 0)
(* x - y, for x >= y *)
DSub(x, y) == Strip(SubFrom(x, y, 1, 0))

RECURSIVE MulLimb(_, _, _, _)
MulLimb(x, d, i, c) ==
    IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == x[i] * d + c
         IN <<t % Base>> \o MulLimb(x, d, i+1, t \div Base)
RECURSIVE MulFrom(_, _, _)
MulFrom(x, y, i) ==
    IF i > Len(y) THEN <<>>
    ELSE LET rest == MulFrom(x, y, i+1)
             sh   == IF rest = <<>> THEN <<>> ELSE <<0>> \o rest
         IN DAdd(Strip(MulLimb(x, y[i], 1, 0)), sh)
DMul(x, y) == MulFrom(x, y, 1)

RECURSIVE DPow(_, _)
DPow(x, e) == IF e = 0 THEN <<1>> ELSE DMul(x, DPow(x, e-1))

Pow2Def(n) == DPow(<<2>>, n)
DShl(x, n) == DMul(x, Pow2Def(n))

RECURSIVE BitLenLimb(_)
BitLenLimb(d) == IF d = 0 THEN 0 ELSE 1 + BitLenLimb(d \div 2)
DBitLen(x) == IF x = <<>> THEN 0 ELSE 15*(Len(x)-1) + BitLenLimb(x[Len(x)])

RECURSIVE IPow2(_)
IPow2(n) == IF n = 0 THEN 1 ELSE 2 * IPow2(n-1)
DBit(x, i) == (Limb(x, 1 + i \div 15) \div IPow2(i % 15)) % 2
(* bits, least significant first *)
DBits(x) == [i \in 1..DBitLen(x) |-> DBit(x, i-1)]

(* floor division, bit by bit from the top *)
RECURSIVE DivFrom(_, _, _)
DivFrom(x, y, i) ==   \* <<quotient, remainder>> of x \div 2^i by y
    IF i = DBitLen(x) THEN << <<>>, <<>> >>
    ELSE LET qr == DivFrom(x, y, i+1)
             r  == DAdd(DMul(<<2>>, qr[2]), DFromInt(DBit(x, i)))
             q  == DMul(<<2>>, qr[1])
         IN IF DCmp(r, y) >= 0 THEN << DAdd(q, <<1>>), DSub(r, y) >> ELSE << q, r >>
DDiv(x, y) == DivFrom(x, y, 0)[1]
DMod(x, y) == DivFrom(x, y, 0)[2]
DShr(x, n) == DDiv(x, Pow2Def(n))
=============================================================================
