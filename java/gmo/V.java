package gmo;

import java.math.BigInteger;
import tlc2.value.impl.*;

/** Conversions between TLC values and Java. */
final class V {
    static final IntValue[] INTS = new IntValue[256];
    static { for (int i = 0; i < 256; i++) INTS[i] = IntValue.gen(i); }

    static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static byte[] bytes(Value v) {
        Value[] e = elems(v);
        byte[] b = new byte[e.length];
        for (int i = 0; i < e.length; i++) {
            int x = ((IntValue) e[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
            b[i] = (byte) x;
        }
        return b;
    }
    static BigInteger big(Value v) { return new BigInteger(1, bytes(v)); }
    static Value fromBytes(byte[] b) { return fromBytes(b, 0, b.length); }
    static Value fromBytes(byte[] b, int off, int n) {
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = INTS[b[off + i] & 0xff];
        return new TupleValue(e);
    }
    static Value fromBig(BigInteger x) {
        if (x.signum() == 0) return new TupleValue(new Value[0]);
        byte[] b = x.toByteArray();
        return b[0] == 0 ? fromBytes(b, 1, b.length - 1) : fromBytes(b, 0, b.length);
    }
}
