package gmo;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Accelerators for spec/EC.tla (Jacobian coordinates); MC_EC compares them with the TLA+ definitions. */
public class ECOverrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { ECOverrides.class }; }

    static BigInteger field(Value c, String name) {
        RecordValue r = (RecordValue) c.toRcd();
        return V.big(r.select(new StringValue(name)));
    }
    static final BigInteger TWO = BigInteger.valueOf(2), THREE = BigInteger.valueOf(3);
    static final BigInteger[] INF = { BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };

    static BigInteger[] dbl(BigInteger[] P, BigInteger a, BigInteger p) {
        BigInteger X = P[0], Y = P[1], Z = P[2];
        if (Z.signum() == 0 || Y.signum() == 0) return INF;
        BigInteger Y2 = Y.multiply(Y).mod(p), S = X.multiply(Y2).shiftLeft(2).mod(p);
        BigInteger Z2 = Z.multiply(Z).mod(p);
        BigInteger M = THREE.multiply(X).multiply(X).add(a.multiply(Z2.multiply(Z2).mod(p))).mod(p);
        BigInteger X3 = M.multiply(M).subtract(S.shiftLeft(1)).mod(p);
        BigInteger Y3 = M.multiply(S.subtract(X3)).subtract(Y2.multiply(Y2).shiftLeft(3)).mod(p);
        BigInteger Z3 = Y.multiply(Z).shiftLeft(1).mod(p);
        return new BigInteger[] { X3, Y3, Z3 };
    }
    static BigInteger[] add(BigInteger[] P, BigInteger[] Q, BigInteger a, BigInteger p) {
        if (P[2].signum() == 0) return Q;
        if (Q[2].signum() == 0) return P;
        BigInteger Z1 = P[2].multiply(P[2]).mod(p), Z2 = Q[2].multiply(Q[2]).mod(p);
        BigInteger U1 = P[0].multiply(Z2).mod(p), U2 = Q[0].multiply(Z1).mod(p);
        BigInteger S1 = P[1].multiply(Z2).multiply(Q[2]).mod(p), S2 = Q[1].multiply(Z1).multiply(P[2]).mod(p);
        BigInteger H = U2.subtract(U1).mod(p), R = S2.subtract(S1).mod(p);
        if (H.signum() == 0) return R.signum() == 0 ? dbl(P, a, p) : INF;
        BigInteger H2 = H.multiply(H).mod(p), H3 = H2.multiply(H).mod(p), W = U1.multiply(H2).mod(p);
        BigInteger X3 = R.multiply(R).subtract(H3).subtract(W.shiftLeft(1)).mod(p);
        BigInteger Y3 = R.multiply(W.subtract(X3)).subtract(S1.multiply(H3)).mod(p);
        BigInteger Z3 = H.multiply(P[2]).multiply(Q[2]).mod(p);
        return new BigInteger[] { X3, Y3, Z3 };
    }
    static BigInteger[] in(Value P) {
        Value[] e = V.elems(P);
        if (e.length == 0) return INF;
        return new BigInteger[] { V.big(e[0]), V.big(e[1]), BigInteger.ONE };
    }
    static Value out(BigInteger[] P, BigInteger p) {
        if (P[2].signum() == 0) return new TupleValue(new Value[0]);
        BigInteger zi = P[2].modInverse(p), z2 = zi.multiply(zi).mod(p);
        return new TupleValue(new Value[] { V.fromBig(P[0].multiply(z2).mod(p)),
            V.fromBig(P[1].multiply(z2).multiply(zi).mod(p)) });
    }
    @TLAPlusOperator(identifier = "ECAdd", module = "EC", warn = false)
    public static Value ecAdd(final Value c, final Value P, final Value Q) {
        BigInteger p = field(c, "p"), a = field(c, "a");
        return out(add(in(P), in(Q), a, p), p);
    }
    @TLAPlusOperator(identifier = "ECMul", module = "EC", warn = false)
    public static Value ecMul(final Value c, final Value k, final Value P) {
        BigInteger p = field(c, "p"), a = field(c, "a"), n = V.big(k);
        BigInteger[] B = in(P), R = INF;
        for (int i = n.bitLength() - 1; i >= 0; i--) {
            R = dbl(R, a, p);
            if (n.testBit(i)) R = add(R, B, a, p);
        }
        return out(R, p);
    }
}
