package gmo;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Accelerators for the modes of spec/SM4.tla; MC_SM4 compares them with the TLA+ definitions. */
public class SM4Overrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { SM4Overrides.class }; }

    static final int[] S = new int[256];
    static int mul(int a, int b) {
        int r = 0;
        for (; b != 0; b >>= 1, a = a << 1 ^ (a >> 7) * 0x1f5) if ((b & 1) != 0) r ^= a;
        return r;
    }
    static int affine(int x) {
        int r = 0;
        for (int i = 0; i < 8; i++) {
            int row = (0xd3 >> i | 0xd3 << (8 - i)) & 0xff;
            r = r << 1 | Integer.bitCount(x & row) & 1;
        }
        return r ^ 0xd3;
    }
    static {
        for (int x = 0; x < 256; x++) {
            int a = affine(x), inv = 1;
            for (int i = 0; i < 254; i++) inv = mul(inv, a);
            S[x] = affine(inv);
        }
    }
    static int tau(int w) { return S[w >>> 24] << 24 | S[w >> 16 & 255] << 16 | S[w >> 8 & 255] << 8 | S[w & 255]; }
    static int rot(int x, int n) { return Integer.rotateLeft(x, n); }
    static int word(byte[] b, int o) { return (b[o] & 255) << 24 | (b[o + 1] & 255) << 16 | (b[o + 2] & 255) << 8 | b[o + 3] & 255; }
    static final int[] FK = { 0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc };

    static int[] keys(byte[] key, boolean dec) {
        int[] k = new int[36], r = new int[32];
        for (int i = 0; i < 4; i++) k[i] = word(key, 4 * i) ^ FK[i];
        for (int i = 0; i < 32; i++) {
            int ck = 0;
            for (int j = 0; j < 4; j++) ck = ck << 8 | (4 * i + j) * 7 & 255;
            int t = tau(k[i + 1] ^ k[i + 2] ^ k[i + 3] ^ ck);
            k[i + 4] = k[i] ^ t ^ rot(t, 13) ^ rot(t, 23);
            r[dec ? 31 - i : i] = k[i + 4];
        }
        return r;
    }
    static void crypt(int[] rk, byte[] in, int o, byte[] out) {
        int[] x = new int[36];
        for (int i = 0; i < 4; i++) x[i] = word(in, o + 4 * i);
        for (int i = 0; i < 32; i++) {
            int t = tau(x[i + 1] ^ x[i + 2] ^ x[i + 3] ^ rk[i]);
            x[i + 4] = x[i] ^ t ^ rot(t, 2) ^ rot(t, 10) ^ rot(t, 18) ^ rot(t, 24);
        }
        for (int i = 0; i < 4; i++)
            for (int j = 0; j < 4; j++) out[4 * i + j] = (byte) (x[35 - i] >>> (24 - 8 * j));
    }
    static Value run(Value key, Value iv, Value m, boolean dec) {
        int[] rk = keys(V.bytes(key), dec);
        byte[] in = V.bytes(m), r = new byte[in.length / 16 * 16], b = new byte[16], x = new byte[16];
        byte[] v = iv == null ? null : V.bytes(iv).clone();
        for (int o = 0; o + 16 <= in.length; o += 16) {
            System.arraycopy(in, o, b, 0, 16);
            if (v != null && !dec) for (int i = 0; i < 16; i++) b[i] ^= v[i];
            crypt(rk, b, 0, x);
            if (v != null && dec) for (int i = 0; i < 16; i++) x[i] ^= v[i];
            System.arraycopy(x, 0, r, o, 16);
            if (v != null) System.arraycopy(dec ? in : r, o, v, 0, 16);
        }
        return V.fromBytes(r);
    }
    @TLAPlusOperator(identifier = "ECBEnc", module = "SM4", warn = false)
    public static Value ecbEnc(final Value k, final Value m) { return run(k, null, m, false); }
    @TLAPlusOperator(identifier = "ECBDec", module = "SM4", warn = false)
    public static Value ecbDec(final Value k, final Value m) { return run(k, null, m, true); }
    @TLAPlusOperator(identifier = "CBCEnc", module = "SM4", warn = false)
    public static Value cbcEnc(final Value k, final Value iv, final Value m) { return run(k, iv, m, false); }
    @TLAPlusOperator(identifier = "CBCDec", module = "SM4", warn = false)
    public static Value cbcDec(final Value k, final Value iv, final Value m) { return run(k, iv, m, true); }
}
