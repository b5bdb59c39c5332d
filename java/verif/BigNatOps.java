package verif;

import java.math.BigInteger;
import java.util.HashSet;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Accelerated versions of the operators of module BigNat (see BigNatDef for the definitions). */
public final class BigNatOps {
    private static final String M = "BigNat";

    private static BigInteger b(Value v) { return Codec.big(v); }

    private static Value bool(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "BFromInt", module = M, warn = false)
    public static Value fromInt(final IntValue x) { return Codec.nat(BigInteger.valueOf(x.val)); }

    @TLAPlusOperator(identifier = "BAdd", module = M, warn = false)
    public static Value add(final Value x, final Value y) { return Codec.nat(b(x).add(b(y))); }

    @TLAPlusOperator(identifier = "BSub", module = M, warn = false)
    public static Value sub(final Value x, final Value y) { return Codec.nat(b(x).subtract(b(y))); }

    @TLAPlusOperator(identifier = "BMul", module = M, warn = false)
    public static Value mul(final Value x, final Value y) { return Codec.nat(b(x).multiply(b(y))); }

    @TLAPlusOperator(identifier = "BDiv", module = M, warn = false)
    public static Value div(final Value x, final Value y) { return Codec.nat(b(x).divide(b(y))); }

    @TLAPlusOperator(identifier = "BMod", module = M, warn = false)
    public static Value mod(final Value x, final Value y) { return Codec.nat(b(x).mod(b(y))); }

    @TLAPlusOperator(identifier = "BPow", module = M, warn = false)
    public static Value pow(final Value x, final IntValue e) { return Codec.nat(b(x).pow(e.val)); }

    @TLAPlusOperator(identifier = "BCmp", module = M, warn = false)
    public static Value cmp(final Value x, final Value y) { return IntValue.gen(b(x).compareTo(b(y))); }

    @TLAPlusOperator(identifier = "BShl", module = M, warn = false)
    public static Value shl(final Value x, final IntValue n) { return Codec.nat(b(x).shiftLeft(n.val)); }

    @TLAPlusOperator(identifier = "BShr", module = M, warn = false)
    public static Value shr(final Value x, final IntValue n) { return Codec.nat(b(x).shiftRight(n.val)); }

    @TLAPlusOperator(identifier = "BBitLen", module = M, warn = false)
    public static Value bitLen(final Value x) { return IntValue.gen(b(x).bitLength()); }

    @TLAPlusOperator(identifier = "BBit", module = M, warn = false)
    public static Value bit(final Value x, final IntValue i) { return IntValue.gen(b(x).testBit(i.val) ? 1 : 0); }

    @TLAPlusOperator(identifier = "BBits", module = M, warn = false)
    public static Value bits(final Value x) {
        BigInteger v = b(x);
        Value[] e = new Value[v.bitLength()];
        for (int i = 0; i < e.length; i++) e[i] = Codec.intv(v.testBit(i) ? 1 : 0);
        return new TupleValue(e);
    }

    /** IsAddChain(c): see AddChain. Elements are naturals. */
    @TLAPlusOperator(identifier = "IsAddChain", module = "AddChain", warn = false)
    public static Value isAddChain(final Value c) {
        Value[] e = Codec.elems(c);
        if (e.length == 0) return BoolValue.ValFalse;
        BigInteger[] v = new BigInteger[e.length];
        for (int i = 0; i < v.length; i++) v[i] = b(e[i]);
        if (!v[0].equals(BigInteger.ONE)) return BoolValue.ValFalse;
        HashSet<BigInteger> seen = new HashSet<>();
        seen.add(v[0]);
        for (int k = 1; k < v.length; k++) {
            boolean ok = false;
            for (int i = k - 1; i >= 0 && !ok; i--) {
                BigInteger d = v[k].subtract(v[i]);
                ok = d.signum() > 0 && seen.contains(d);
            }
            if (!ok || !seen.add(v[k])) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
}
