/* TLC module override for RHash.tla: cryptographic hash primitives over Seq(0..255).
 * The only part of the specification not written in TLA+ (besides TLC itself).
 * Cross-checked on every run against Python's hashlib, and BLAKE-256 also against
 * the pure TLA+ definition in Blake.tla. */
import java.security.MessageDigest;
import tlc2.value.impl.*;

public final class RHash {
  private static byte[] in(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("RHash: argument is not a sequence: " + v);
    byte[] b = new byte[t.elems.length];
    for (int i = 0; i < b.length; i++) {
      int x = ((IntValue) t.elems[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("RHash: not a byte: " + x);
      b[i] = (byte) x;
    }
    return b;
  }
  private static Value out(byte[] b) {
    Value[] r = new Value[b.length];
    for (int i = 0; i < b.length; i++) r[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(r);
  }
  public static Value SHA256(Value v) throws Exception {
    return out(MessageDigest.getInstance("SHA-256").digest(in(v)));
  }
  public static Value RIPEMD160(Value v) { return out(rmd160(in(v))); }
  public static Value BLAKE256(Value v) { return out(blake256(in(v))); }
  public static Value BLAKE2b(Value v, Value n, Value person) {
    return out(blake2b(in(v), ((IntValue) n).val, in(person)));
  }
  public static Value BLAKE2s(Value v, Value n, Value person) {
    return out(blake2s(in(v), ((IntValue) n).val, in(person)));
  }
  /** BLAKE2b (64-byte parameter block) or BLAKE2s (32-byte) with every parameter; key blocks are part of the message. */
  public static Value BLAKE2P(Value m, Value params, Value last) {
    byte[] p = in(params);
    boolean ln = ((BoolValue) last).val;
    return out(p.length == 64 ? blake2b(in(m), p, ln) : blake2s(in(m), p, ln));
  }
  private static Value[] els(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("RHash: not a sequence: " + v);
    return t.elems;
  }
  private static long word(Value v) {
    long w = 0;
    Value[] l = els(v);
    for (int i = l.length - 1; i >= 0; i--) w = (w << 16) | (((IntValue) l[i]).val & 0xffff);
    return w;
  }
  private static long[] words(Value v) {
    Value[] e = els(v);
    long[] r = new long[e.length];
    for (int i = 0; i < r.length; i++) r[i] = word(e[i]);
    return r;
  }
  private static long rot(long x, int r, boolean small) {
    return small ? Integer.rotateRight((int) x, r) & 0xffffffffL : Long.rotateRight(x, r);
  }
  public static Value BLAKEC(Value size, Value hv, Value sv, Value bv, Value tv, Value sg, Value cv) {
    int n = ((IntValue) size).val;
    boolean small = n == 224 || n == 256;
    int wb = small ? 4 : 8, rounds = small ? 14 : 16;
    long mask = small ? 0xffffffffL : -1L;
    int[] rs = small ? new int[]{16, 12, 8, 7} : new int[]{32, 25, 16, 11};
    long[] h = words(hv), s = words(sv), c = words(cv), m = new long[16], v = new long[16];
    byte[] b = in(bv);
    for (int i = 0; i < 16; i++) for (int j = 0; j < wb; j++) m[i] = (m[i] << 8) | (b[wb * i + j] & 255);
    Value[] sig = els(sg);
    int[][] S = new int[10][16];
    for (int i = 0; i < 10; i++) { Value[] row = els(sig[i]); for (int j = 0; j < 16; j++) S[i][j] = ((IntValue) row[j]).val; }
    long t = ((IntValue) tv).val;
    for (int i = 0; i < 8; i++) v[i] = h[i];
    for (int i = 0; i < 4; i++) v[8 + i] = s[i] ^ c[i];
    v[12] = t ^ c[4]; v[13] = t ^ c[5]; v[14] = c[6]; v[15] = c[7];
    int[][] G = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
    for (int r = 0; r < rounds; r++)
      for (int g = 0; g < 8; g++) {
        int p = S[r % 10][2 * g], q = S[r % 10][2 * g + 1], A = G[g][0], B = G[g][1], C = G[g][2], D = G[g][3];
        v[A] = (v[A] + v[B] + (m[p] ^ c[q])) & mask; v[D] = rot(v[D] ^ v[A], rs[0], small);
        v[C] = (v[C] + v[D]) & mask; v[B] = rot(v[B] ^ v[C], rs[1], small);
        v[A] = (v[A] + v[B] + (m[q] ^ c[p])) & mask; v[D] = rot(v[D] ^ v[A], rs[2], small);
        v[C] = (v[C] + v[D]) & mask; v[B] = rot(v[B] ^ v[C], rs[3], small);
      }
    Value[] out = new Value[8];
    for (int i = 0; i < 8; i++) {
      long x = h[i] ^ s[i % 4] ^ v[i] ^ v[i + 8];
      Value[] l = new Value[wb / 2];
      for (int j = 0; j < l.length; j++) { l[j] = IntValue.gen((int) (x & 0xffff)); x >>>= 16; }
      out[i] = new TupleValue(l);
    }
    return new TupleValue(out);
  }
  public static Value REBASE(Value v, Value from, Value to) {
    java.math.BigInteger f = java.math.BigInteger.valueOf(((IntValue) from).val);
    java.math.BigInteger t = java.math.BigInteger.valueOf(((IntValue) to).val);
    java.math.BigInteger n = java.math.BigInteger.ZERO;
    for (byte x : in(v)) n = n.multiply(f).add(java.math.BigInteger.valueOf(x & 255));
    java.util.ArrayList<Value> r = new java.util.ArrayList<>();
    while (n.signum() > 0) {
      java.math.BigInteger[] q = n.divideAndRemainder(t);
      r.add(0, IntValue.gen(q[1].intValue()));
      n = q[0];
    }
    return new TupleValue(r.toArray(new Value[0]));
  }

  // ---- RIPEMD-160
  private static final int[] R1 = {
    0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
    3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,
    4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  private static final int[] R2 = {
    5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
    15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,
    12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  private static final int[] S1 = {
    11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
    11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,
    9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  private static final int[] S2 = {
    8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
    9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,
    8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  private static final int[] K1 = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E};
  private static final int[] K2 = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
  private static int f(int j, int x, int y, int z) {
    switch (j) {
      case 0: return x ^ y ^ z;
      case 1: return (x & y) | (~x & z);
      case 2: return (x | ~y) ^ z;
      case 3: return (x & z) | (y & ~z);
      default: return x ^ (y | ~z);
    }
  }
  static byte[] rmd160(byte[] m) {
    int padded = ((m.length + 8) / 64 + 1) * 64;
    byte[] p = java.util.Arrays.copyOf(m, padded);
    p[m.length] = (byte) 0x80;
    long bits = 8L * m.length;
    for (int i = 0; i < 8; i++) p[padded - 8 + i] = (byte) (bits >>> (8 * i));
    int[] h = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    for (int off = 0; off < padded; off += 64) {
      int[] x = new int[16];
      for (int i = 0; i < 16; i++)
        x[i] = (p[off+4*i] & 255) | (p[off+4*i+1] & 255) << 8 | (p[off+4*i+2] & 255) << 16 | (p[off+4*i+3] & 255) << 24;
      int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
      int aa = a, bb = b, cc = c, dd = d, ee = e, t;
      for (int j = 0; j < 80; j++) {
        t = Integer.rotateLeft(a + f(j / 16, b, c, d) + x[R1[j]] + K1[j / 16], S1[j]) + e;
        a = e; e = d; d = Integer.rotateLeft(c, 10); c = b; b = t;
        t = Integer.rotateLeft(aa + f(4 - j / 16, bb, cc, dd) + x[R2[j]] + K2[j / 16], S2[j]) + ee;
        aa = ee; ee = dd; dd = Integer.rotateLeft(cc, 10); cc = bb; bb = t;
      }
      t = h[1] + c + dd; h[1] = h[2] + d + ee; h[2] = h[3] + e + aa;
      h[3] = h[4] + a + bb; h[4] = h[0] + b + cc; h[0] = t;
    }
    byte[] r = new byte[20];
    for (int i = 0; i < 20; i++) r[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
    return r;
  }

  // ---- sigma shared by BLAKE, BLAKE2
  private static final int[][] SIG = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
    {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
    {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
    {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
    {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
  private static final int[][] QR = {
    {0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
  private static final int[] IV32 = {
    0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19};
  private static final long[] IV64 = {
    0x6A09E667F3BCC908L,0xBB67AE8584CAA73BL,0x3C6EF372FE94F82BL,0xA54FF53A5F1D36F1L,
    0x510E527FADE682D1L,0x9B05688C2B3E6C1FL,0x1F83D9ABFB41BD6BL,0x5BE0CD19137E2179L};
  private static final int[] C32 = {
    0x243F6A88,0x85A308D3,0x13198A2E,0x03707344,0xA4093822,0x299F31D0,0x082EFA98,0xEC4E6C89,
    0x452821E6,0x38D01377,0xBE5466CF,0x34E90C6C,0xC0AC29B7,0xC97C50DD,0x3F84D5B5,0xB5470917};

  static byte[] blake256(byte[] m) {
    int padded = ((m.length + 1 + 8 + 63) / 64) * 64;
    byte[] p = java.util.Arrays.copyOf(m, padded);
    p[m.length] |= (byte) 0x80;
    p[padded - 9] |= 1;
    long bits = 8L * m.length;
    for (int i = 0; i < 8; i++) p[padded - 1 - i] = (byte) (bits >>> (8 * i));
    int[] h = IV32.clone();
    for (int off = 0; off < padded; off += 64) {
      long t = Math.min(bits, 8L * (off + 64));
      if (8L * off >= bits) t = 0;          // block holds no message bits
      int[] w = new int[16], v = new int[16];
      for (int i = 0; i < 16; i++)
        w[i] = (p[off+4*i] & 255) << 24 | (p[off+4*i+1] & 255) << 16 | (p[off+4*i+2] & 255) << 8 | (p[off+4*i+3] & 255);
      for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = C32[i]; }
      v[12] ^= (int) t; v[13] ^= (int) t; v[14] ^= (int) (t >>> 32); v[15] ^= (int) (t >>> 32);
      for (int r = 0; r < 14; r++)
        for (int g = 0; g < 8; g++) {
          int a = QR[g][0], b = QR[g][1], c = QR[g][2], d = QR[g][3];
          int s0 = SIG[r % 10][2 * g], s1 = SIG[r % 10][2 * g + 1];
          v[a] += v[b] + (w[s0] ^ C32[s1]); v[d] = Integer.rotateRight(v[d] ^ v[a], 16);
          v[c] += v[d]; v[b] = Integer.rotateRight(v[b] ^ v[c], 12);
          v[a] += v[b] + (w[s1] ^ C32[s0]); v[d] = Integer.rotateRight(v[d] ^ v[a], 8);
          v[c] += v[d]; v[b] = Integer.rotateRight(v[b] ^ v[c], 7);
        }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    byte[] r = new byte[32];
    for (int i = 0; i < 32; i++) r[i] = (byte) (h[i / 4] >>> (24 - 8 * (i % 4)));
    return r;
  }

  static byte[] blake2b(byte[] m, int n, byte[] person) {
    byte[] p = new byte[64];
    p[0] = (byte) n; p[2] = 1; p[3] = 1;
    System.arraycopy(person, 0, p, 48, person.length);
    return blake2b(m, p, false);
  }
  static byte[] blake2s(byte[] m, int n, byte[] person) {
    byte[] p = new byte[32];
    p[0] = (byte) n; p[2] = 1; p[3] = 1;
    System.arraycopy(person, 0, p, 24, person.length);
    return blake2s(m, p, false);
  }

  static byte[] blake2b(byte[] m, byte[] pp, boolean lastNode) {
    int n = pp[0] & 255;
    long[] h = IV64.clone();
    for (int i = 0; i < 64; i++) h[i / 8] ^= (pp[i] & 255L) << (8 * (i % 8));
    int blocks = Math.max(1, (m.length + 127) / 128);
    byte[] p = java.util.Arrays.copyOf(m, blocks * 128);
    for (int k = 0; k < blocks; k++) {
      boolean last = k == blocks - 1;
      long t = last ? m.length : 128L * (k + 1);
      long[] w = new long[16], v = new long[16];
      for (int i = 0; i < 128; i++) w[i / 8] |= (p[128 * k + i] & 255L) << (8 * (i % 8));
      for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV64[i]; }
      v[12] ^= t; if (last) v[14] = ~v[14]; if (last && lastNode) v[15] = ~v[15];
      for (int r = 0; r < 12; r++)
        for (int g = 0; g < 8; g++) {
          int a = QR[g][0], b = QR[g][1], c = QR[g][2], d = QR[g][3];
          v[a] += v[b] + w[SIG[r % 10][2 * g]]; v[d] = Long.rotateRight(v[d] ^ v[a], 32);
          v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 24);
          v[a] += v[b] + w[SIG[r % 10][2 * g + 1]]; v[d] = Long.rotateRight(v[d] ^ v[a], 16);
          v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 63);
        }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    byte[] r = new byte[n];
    for (int i = 0; i < n; i++) r[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
    return r;
  }

  static byte[] blake2s(byte[] m, byte[] pp, boolean lastNode) {
    int n = pp[0] & 255;
    int[] h = IV32.clone();
    for (int i = 0; i < 32; i++) h[i / 4] ^= (pp[i] & 255) << (8 * (i % 4));
    int blocks = Math.max(1, (m.length + 63) / 64);
    byte[] p = java.util.Arrays.copyOf(m, blocks * 64);
    for (int k = 0; k < blocks; k++) {
      boolean last = k == blocks - 1;
      int t = last ? m.length : 64 * (k + 1);
      int[] w = new int[16], v = new int[16];
      for (int i = 0; i < 64; i++) w[i / 4] |= (p[64 * k + i] & 255) << (8 * (i % 4));
      for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV32[i]; }
      v[12] ^= t; if (last) v[14] = ~v[14]; if (last && lastNode) v[15] = ~v[15];
      for (int r = 0; r < 10; r++)
        for (int g = 0; g < 8; g++) {
          int a = QR[g][0], b = QR[g][1], c = QR[g][2], d = QR[g][3];
          v[a] += v[b] + w[SIG[r % 10][2 * g]]; v[d] = Integer.rotateRight(v[d] ^ v[a], 16);
          v[c] += v[d]; v[b] = Integer.rotateRight(v[b] ^ v[c], 12);
          v[a] += v[b] + w[SIG[r % 10][2 * g + 1]]; v[d] = Integer.rotateRight(v[d] ^ v[a], 8);
          v[c] += v[d]; v[b] = Integer.rotateRight(v[b] ^ v[c], 7);
        }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    byte[] r = new byte[n];
    for (int i = 0; i < n; i++) r[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
    return r;
  }
}
