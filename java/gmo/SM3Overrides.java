package gmo;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Accelerators for spec/SM3.tla; MC_SM3 and every run's self check compare them with the TLA+ definitions. */
public class SM3Overrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { SM3Overrides.class }; }

    static final int[] IV = { 0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e };

    static void cf(int[] v, byte[] m, int off) {
        int[] w = new int[68];
        for (int i = 0; i < 16; i++)
            w[i] = (m[off + 4 * i] & 0xff) << 24 | (m[off + 4 * i + 1] & 0xff) << 16 | (m[off + 4 * i + 2] & 0xff) << 8 | (m[off + 4 * i + 3] & 0xff);
        for (int j = 16; j < 68; j++) {
            int x = w[j - 16] ^ w[j - 9] ^ Integer.rotateLeft(w[j - 3], 15);
            x ^= Integer.rotateLeft(x, 15) ^ Integer.rotateLeft(x, 23);
            w[j] = x ^ Integer.rotateLeft(w[j - 13], 7) ^ w[j - 6];
        }
        int a = v[0], b = v[1], c = v[2], d = v[3], e = v[4], f = v[5], g = v[6], h = v[7];
        for (int j = 0; j < 64; j++) {
            int t = j < 16 ? 0x79cc4519 : 0x7a879d8a;
            int a12 = Integer.rotateLeft(a, 12);
            int ss1 = Integer.rotateLeft(a12 + e + Integer.rotateLeft(t, j % 32), 7), ss2 = ss1 ^ a12;
            int ff = j < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c);
            int gg = j < 16 ? e ^ f ^ g : (e & f) | (~e & g);
            int tt1 = ff + d + ss2 + (w[j] ^ w[j + 4]), tt2 = gg + h + ss1 + w[j];
            d = c; c = Integer.rotateLeft(b, 9); b = a; a = tt1;
            h = g; g = Integer.rotateLeft(f, 19); f = e;
            e = tt2 ^ Integer.rotateLeft(tt2, 9) ^ Integer.rotateLeft(tt2, 17);
        }
        v[0] ^= a; v[1] ^= b; v[2] ^= c; v[3] ^= d; v[4] ^= e; v[5] ^= f; v[6] ^= g; v[7] ^= h;
    }
    static byte[] hash(byte[] m) {
        int n = m.length, total = ((n + 9 + 63) / 64) * 64;
        byte[] p = java.util.Arrays.copyOf(m, total);
        p[n] = (byte) 0x80;
        long bits = 8L * n;
        for (int i = 0; i < 8; i++) p[total - 1 - i] = (byte) (bits >>> (8 * i));
        int[] v = IV.clone();
        for (int o = 0; o < total; o += 64) cf(v, p, o);
        byte[] r = new byte[32];
        for (int i = 0; i < 32; i++) r[i] = (byte) (v[i / 4] >>> (24 - 8 * (i % 4)));
        return r;
    }
    @TLAPlusOperator(identifier = "SM3Hash", module = "SM3", warn = false)
    public static Value sm3(final Value m) { return V.fromBytes(hash(V.bytes(m))); }
}
