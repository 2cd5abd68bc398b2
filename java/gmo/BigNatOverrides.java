package gmo;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Accelerators for spec/BigNat.tla; MC_BigNat compares them with the TLA+ definitions. */
public class BigNatOverrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { BigNatOverrides.class }; }

    @TLAPlusOperator(identifier = "BNNorm", module = "BigNat", warn = false)
    public static Value norm(final Value a) { return V.fromBig(V.big(a)); }
    @TLAPlusOperator(identifier = "BNCmp", module = "BigNat", warn = false)
    public static Value cmp(final Value a, final Value b) { return IntValue.gen(V.big(a).compareTo(V.big(b))); }
    @TLAPlusOperator(identifier = "BNAdd", module = "BigNat", warn = false)
    public static Value add(final Value a, final Value b) { return V.fromBig(V.big(a).add(V.big(b))); }
    @TLAPlusOperator(identifier = "BNSub", module = "BigNat", warn = false)
    public static Value sub(final Value a, final Value b) {
        BigInteger r = V.big(a).subtract(V.big(b));
        if (r.signum() < 0) throw new RuntimeException("BNSub: negative");
        return V.fromBig(r);
    }
    @TLAPlusOperator(identifier = "BNMul", module = "BigNat", warn = false)
    public static Value mul(final Value a, final Value b) { return V.fromBig(V.big(a).multiply(V.big(b))); }
    @TLAPlusOperator(identifier = "BNMod", module = "BigNat", warn = false)
    public static Value mod(final Value a, final Value m) { return V.fromBig(V.big(a).mod(V.big(m))); }
    @TLAPlusOperator(identifier = "BNDiv", module = "BigNat", warn = false)
    public static Value div(final Value a, final Value m) { return V.fromBig(V.big(a).divide(V.big(m))); }
    @TLAPlusOperator(identifier = "BNModInv", module = "BigNat", warn = false)
    public static Value modInv(final Value a, final Value m) { return V.fromBig(V.big(a).modInverse(V.big(m))); }
}
