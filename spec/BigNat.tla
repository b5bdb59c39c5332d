------------------------------- MODULE BigNat -------------------------------
(* The operators of BigNatDef under the names used by the specifications.  *)
(* TLC evaluates them with java.math.BigInteger (java/verif/BigNatOps).     *)
EXTENDS BigNatDef

BFromInt(n) == DFromInt(n)
BAdd(x, y)  == DAdd(x, y)
BSub(x, y)  == DSub(x, y)
BMul(x, y)  == DMul(x, y)
BDiv(x, y)  == DDiv(x, y)
BMod(x, y)  == DMod(x, y)
BPow(x, e)  == DPow(x, e)
BCmp(x, y)  == DCmp(x, y)
BShl(x, n)  == DShl(x, n)
BShr(x, n)  == DShr(x, n)
BBitLen(x)  == DBitLen(x)
BBit(x, i)  == DBit(x, i)
BBits(x)    == DBits(x)

BZero == <<>>
BOne  == <<1>>
BTwo  == <<2>>
BPow2(n) == BShl(BOne, n)
BOnes(n) == BSub(BPow2(n), BOne)
BLt(x, y) == BCmp(x, y) < 0
BLe(x, y) == BCmp(x, y) <= 0
BOdd(x) == x # <<>> /\ x[1] % 2 = 1
IsOnes(x) == x # <<>> /\ x = BOnes(BBitLen(x))
=============================================================================
