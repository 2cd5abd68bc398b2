package gmo;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import java.util.Arrays;

/** Accelerator for SM3!AbsorbRep only (n repetitions of a block), used for messages of more than 2^29 bytes. */
public class SM3RepOverride implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { SM3RepOverride.class }; }

    private static int[] from, state;
    private static byte[] rep;
    private static int done;

    @TLAPlusOperator(identifier = "AbsorbRep", module = "SM3", warn = false)
    public static Value absorbRep(final Value v, final Value block, final Value n) {
        Value[] e = V.elems(v);
        int[] s = new int[8];
        for (int i = 0; i < 8; i++) {
            Value[] w = V.elems(e[i]);
            s[i] = ((IntValue) w[0]).val << 16 | ((IntValue) w[1]).val;
        }
        byte[] b = V.bytes(block);
        int count = ((IntValue) n).val;
        synchronized (SM3RepOverride.class) { // AbsorbRep(V, b, n) = AbsorbRep(AbsorbRep(V, b, m), b, n - m): continue from the last result
            int[] start = s.clone();
            int i = 0;
            if (Arrays.equals(start, from) && Arrays.equals(b, rep) && done <= count) {
                s = state.clone();
                i = done;
            }
            for (; i < count; i++) SM3Overrides.cf(s, b, 0);
            from = start;
            rep = b.clone();
            done = count;
            state = s.clone();
        }
        Value[] r = new Value[8];
        for (int i = 0; i < 8; i++)
            r[i] = new TupleValue(new Value[] { IntValue.gen(s[i] >>> 16), IntValue.gen(s[i] & 0xffff) });
        return new TupleValue(r);
    }
}
