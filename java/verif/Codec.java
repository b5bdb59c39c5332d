package verif;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;

import tlc2.value.impl.*;
import util.UniqueString;

/** Translation between TLA+ values and the line-based JSON used on the wire. */
final class Codec {
    static final int LIMB = 15;
    static final int MASK = (1 << LIMB) - 1;
    private static final IntValue[] SMALL = new IntValue[1 << LIMB];

    static {
        for (int i = 0; i < SMALL.length; i++) SMALL[i] = IntValue.gen(i);
    }

    static IntValue intv(int i) {
        return i >= 0 && i < SMALL.length ? SMALL[i] : IntValue.gen(i);
    }

    // ---- naturals as little-endian base-2^15 limb tuples --------------------

    static TupleValue nat(BigInteger x) {
        if (x.signum() < 0) throw new RuntimeException("nat: negative");
        int n = (x.bitLength() + LIMB - 1) / LIMB;
        Value[] e = new Value[n];
        if (x.bitLength() < 63) {
            long v = x.longValue();
            for (int i = 0; i < n; i++) {
                e[i] = SMALL[(int) (v & MASK)];
                v >>>= LIMB;
            }
            return new TupleValue(e);
        }
        byte[] b = x.toByteArray(); // big endian
        for (int i = 0; i < n; i++) {
            int bit = i * LIMB, v = 0, got = 0;
            while (got < LIMB) {
                int idx = b.length - 1 - (bit >> 3);
                if (idx < 0) break;
                int off = bit & 7;
                int take = Math.min(8 - off, LIMB - got);
                v |= (((b[idx] & 0xff) >> off) & ((1 << take) - 1)) << got;
                got += take;
                bit += take;
            }
            e[i] = SMALL[v];
        }
        return new TupleValue(e);
    }

    static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    static BigInteger big(Value v) {
        Value[] e = elems(v);
        if (e.length <= 4) {
            long x = 0;
            for (int i = e.length - 1; i >= 0; i--) x = (x << LIMB) | ((IntValue) e[i]).val;
            return BigInteger.valueOf(x);
        }
        int bits = e.length * LIMB;
        byte[] b = new byte[(bits + 7) / 8 + 1];
        for (int i = 0; i < e.length; i++) {
            int val = ((IntValue) e[i]).val, bit = i * LIMB, left = LIMB;
            while (left > 0) {
                int idx = b.length - 1 - (bit >> 3);
                int off = bit & 7;
                int take = Math.min(8 - off, left);
                b[idx] |= (byte) ((val & ((1 << take) - 1)) << off);
                val >>= take;
                left -= take;
                bit += take;
            }
        }
        return new BigInteger(b);
    }

    /** Signed integers are pairs <<sign, magnitude>>. */
    static TupleValue sint(BigInteger x) {
        return new TupleValue(new Value[] {IntValue.gen(x.signum()), nat(x.abs())});
    }

    static BigInteger sbig(Value v) {
        Value[] e = elems(v);
        BigInteger m = big(e[1]);
        return ((IntValue) e[0]).val < 0 ? m.negate() : m;
    }

    // ---- TLA+ -> JSON ---------------------------------------------------------

    static void write(StringBuilder sb, Value v) {
        if (v instanceof IntValue) {
            sb.append(((IntValue) v).val);
        } else if (v instanceof BoolValue) {
            sb.append(((BoolValue) v).val);
        } else if (v instanceof StringValue) {
            quote(sb, ((StringValue) v).val.toString());
        } else if (v instanceof TupleValue) {
            arr(sb, ((TupleValue) v).elems);
        } else if (v instanceof RecordValue) {
            RecordValue r = (RecordValue) v;
            sb.append('{');
            for (int i = 0; i < r.names.length; i++) {
                if (i > 0) sb.append(',');
                quote(sb, r.names[i].toString());
                sb.append(':');
                write(sb, r.values[i]);
            }
            sb.append('}');
        } else if (v instanceof ModelValue) {
            quote(sb, v.toString());
        } else {
            Value t = v.toTuple();
            if (t instanceof TupleValue) {
                arr(sb, ((TupleValue) t).elems);
                return;
            }
            Value r = v.toRcd();
            if (r instanceof RecordValue) {
                write(sb, r);
                return;
            }
            Value s = v.toSetEnum();
            if (s instanceof SetEnumValue) {
                s.normalize();
                SetEnumValue se = (SetEnumValue) s;
                sb.append('[');
                for (int i = 0; i < se.elems.size(); i++) {
                    if (i > 0) sb.append(',');
                    write(sb, se.elems.elementAt(i));
                }
                sb.append(']');
                return;
            }
            throw new RuntimeException("cannot encode " + v.getClass() + ": " + v);
        }
    }

    private static void arr(StringBuilder sb, Value[] e) {
        sb.append('[');
        for (int i = 0; i < e.length; i++) {
            if (i > 0) sb.append(',');
            write(sb, e[i]);
        }
        sb.append(']');
    }

    static void quote(StringBuilder sb, String s) {
        sb.append('"');
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            switch (c) {
            case '"': sb.append("\\\""); break;
            case '\\': sb.append("\\\\"); break;
            case '\n': sb.append("\\n"); break;
            case '\t': sb.append("\\t"); break;
            case '\r': sb.append("\\r"); break;
            default:
                if (c < 0x20) sb.append(String.format("\\u%04x", (int) c));
                else sb.append(c);
            }
        }
        sb.append('"');
    }

    // ---- JSON -> TLA+ ---------------------------------------------------------
    // Strings with a leading marker are decoded:
    //   "#<hex>"  natural number      -> limb tuple
    //   "$<hex>" / "$-<hex>" integer  -> <<sign, limbs>>
    //   "@<hex>"  byte string         -> tuple of byte codes

    static Value read(String s) {
        Parser p = new Parser(s);
        Value v = p.value();
        p.ws();
        if (p.i != s.length()) throw new RuntimeException("trailing JSON in " + s);
        return v;
    }

    private static final class Parser {
        final String s;
        int i = 0;

        Parser(String s) { this.s = s; }

        void ws() {
            while (i < s.length() && s.charAt(i) <= ' ') i++;
        }

        Value value() {
            ws();
            char c = s.charAt(i);
            switch (c) {
            case '{': return obj();
            case '[': return array();
            case '"': return str();
            case 't': i += 4; return BoolValue.ValTrue;
            case 'f': i += 5; return BoolValue.ValFalse;
            default: return num();
            }
        }

        Value num() {
            int st = i;
            if (s.charAt(i) == '-') i++;
            while (i < s.length() && Character.isDigit(s.charAt(i))) i++;
            return intv(Integer.parseInt(s.substring(st, i)));
        }

        Value array() {
            i++;
            List<Value> l = new ArrayList<>();
            ws();
            if (s.charAt(i) == ']') {
                i++;
                return new TupleValue(new Value[0]);
            }
            while (true) {
                l.add(value());
                ws();
                char c = s.charAt(i++);
                if (c == ']') break;
                if (c != ',') throw new RuntimeException("bad JSON array");
            }
            return new TupleValue(l.toArray(new Value[0]));
        }

        Value obj() {
            i++;
            List<UniqueString> n = new ArrayList<>();
            List<Value> l = new ArrayList<>();
            ws();
            if (s.charAt(i) == '}') {
                i++;
            } else {
                while (true) {
                    ws();
                    n.add(UniqueString.uniqueStringOf(raw()));
                    ws();
                    if (s.charAt(i++) != ':') throw new RuntimeException("bad JSON object");
                    l.add(value());
                    ws();
                    char c = s.charAt(i++);
                    if (c == '}') break;
                    if (c != ',') throw new RuntimeException("bad JSON object");
                }
            }
            return new RecordValue(n.toArray(new UniqueString[0]), l.toArray(new Value[0]), false);
        }

        String raw() {
            if (s.charAt(i) != '"') throw new RuntimeException("bad JSON string");
            int e = ++i;
            while (s.charAt(e) != '"' && s.charAt(e) != '\\') e++;
            if (s.charAt(e) == '"') {
                String r = s.substring(i, e);
                i = e + 1;
                return r;
            }
            StringBuilder sb = new StringBuilder();
            while (true) {
                char c = s.charAt(i++);
                if (c == '"') break;
                if (c != '\\') {
                    sb.append(c);
                    continue;
                }
                c = s.charAt(i++);
                switch (c) {
                case 'n': sb.append('\n'); break;
                case 't': sb.append('\t'); break;
                case 'r': sb.append('\r'); break;
                case 'u':
                    sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16));
                    i += 4;
                    break;
                default: sb.append(c);
                }
            }
            return sb.toString();
        }

        Value str() {
            String r = raw();
            if (r.isEmpty()) return new StringValue(r);
            switch (r.charAt(0)) {
            case '#': return nat(hex(r.substring(1)));
            case '$': {
                boolean neg = r.charAt(1) == '-';
                BigInteger m = hex(r.substring(neg ? 2 : 1));
                return sint(neg ? m.negate() : m);
            }
            case '@': {
                int n = (r.length() - 1) / 2;
                Value[] e = new Value[n];
                for (int k = 0; k < n; k++)
                    e[k] = SMALL[Character.digit(r.charAt(1 + 2 * k), 16) * 16 + Character.digit(r.charAt(2 + 2 * k), 16)];
                return new TupleValue(e);
            }
            default: return new StringValue(r);
            }
        }
    }

    static BigInteger hex(String h) {
        return h.length() <= 15 ? BigInteger.valueOf(Long.parseLong(h, 16)) : new BigInteger(h, 16);
    }
}
