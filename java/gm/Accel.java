package gm;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluated forms of whole functions; OverrideCheck.tla compares them with their definitions. */
public class Accel {
  // ---- GHASH.tla ----
  @TLAPlusOperator(identifier = "GMul", module = "GHASH", warn = false)
  public static Value gmul(Value a, Value c) {
    byte[] x = Ovr.b(a), y = Ovr.b(c);
    Ovr.same(x, new byte[16]);
    Ovr.same(y, x);
    long vh = be(y, 0), vl = be(y, 8), zh = 0, zl = 0;
    for (int i = 0; i < 128; i++) {
      if (((x[i >> 3] >> (7 - (i & 7))) & 1) != 0) {
        zh ^= vh;
        zl ^= vl;
      }
      boolean lsb = (vl & 1) != 0;
      vl = (vl >>> 1) | (vh << 63);
      vh = vh >>> 1;
      if (lsb) vh ^= 0xE100000000000000L;
    }
    byte[] r = new byte[16];
    for (int i = 0; i < 8; i++) {
      r[i] = (byte) (zh >>> (56 - 8 * i));
      r[8 + i] = (byte) (zl >>> (56 - 8 * i));
    }
    return Ovr.t(r);
  }

  static long be(byte[] a, int o) {
    long r = 0;
    for (int i = 0; i < 8; i++) r = (r << 8) | (a[o + i] & 255);
    return r;
  }

  // ---- SM3.tla ----
  static int[] state(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int[] r = new int[8];
    for (int i = 0; i < 8; i++) {
      byte[] w = Ovr.b(e[i]);
      r[i] = (w[0] & 255) << 24 | (w[1] & 255) << 16 | (w[2] & 255) << 8 | (w[3] & 255);
    }
    return r;
  }

  static Value state(int[] s) {
    Value[] r = new Value[8];
    for (int i = 0; i < 8; i++)
      r[i] = Ovr.t(new byte[] {(byte) (s[i] >>> 24), (byte) (s[i] >>> 16), (byte) (s[i] >>> 8), (byte) s[i]});
    return new TupleValue(r);
  }

  static int rl(int x, int n) {
    return Integer.rotateLeft(x, n);
  }

  static void compress(int[] v, byte[] b) {
    rounds(v, expand(b));
  }

  /** the 68 words of the block, then the 64 round constants turned */
  static int[] expand(byte[] b) {
    int[] w = new int[132];
    for (int i = 0; i < 16; i++)
      w[i] = (b[4 * i] & 255) << 24 | (b[4 * i + 1] & 255) << 16 | (b[4 * i + 2] & 255) << 8 | (b[4 * i + 3] & 255);
    for (int j = 16; j < 68; j++) {
      int p = w[j - 16] ^ w[j - 9] ^ rl(w[j - 3], 15);
      w[j] = p ^ rl(p, 15) ^ rl(p, 23) ^ rl(w[j - 13], 7) ^ w[j - 6];
    }
    for (int j = 0; j < 64; j++) w[68 + j] = rl(j < 16 ? 0x79cc4519 : 0x7a879d8a, j % 32);
    return w;
  }

  static void rounds(int[] v, int[] w) {
    int A = v[0], B = v[1], C = v[2], D = v[3], E = v[4], F = v[5], G = v[6], H = v[7];
    for (int j = 0; j < 64; j++) {
      int ss1 = rl(rl(A, 12) + E + w[68 + j], 7);
      int ss2 = ss1 ^ rl(A, 12);
      int ff = j < 16 ? A ^ B ^ C : (A & B) | (A & C) | (B & C);
      int gg = j < 16 ? E ^ F ^ G : (E & F) | (~E & G);
      int tt1 = ff + D + ss2 + (w[j] ^ w[j + 4]);
      int tt2 = gg + H + ss1 + w[j];
      D = C;
      C = rl(B, 9);
      B = A;
      A = tt1;
      H = G;
      G = rl(F, 19);
      F = E;
      E = tt2 ^ rl(tt2, 9) ^ rl(tt2, 17);
    }
    v[0] ^= A;
    v[1] ^= B;
    v[2] ^= C;
    v[3] ^= D;
    v[4] ^= E;
    v[5] ^= F;
    v[6] ^= G;
    v[7] ^= H;
  }

  @TLAPlusOperator(identifier = "SM3Compress", module = "SM3", warn = false)
  public static Value sm3compress(Value v, Value blk) {
    int[] s = state(v);
    byte[] b = Ovr.b(blk);
    Ovr.same(b, new byte[64]);
    compress(s, b);
    return state(s);
  }

  @TLAPlusOperator(identifier = "SM3Repeat", module = "SM3", warn = false)
  public static Value sm3repeat(Value v, Value blk, Value n) {
    int[] s = state(v);
    byte[] b = Ovr.b(blk);
    Ovr.same(b, new byte[64]);
    String name = v + "/" + blk + "/" + n;
    Value known = Ovr.in(n) > 1000 ? chains.get(name) : null;
    if (known != null) return known;
    int[] w = expand(b);
    for (int i = Ovr.in(n); i > 0; i--) rounds(s, w);
    known = state(s);
    if (Ovr.in(n) > 1000) chains.put(name, known);
    return known;
  }

  static final java.util.concurrent.ConcurrentHashMap<String, Value> chains = new java.util.concurrent.ConcurrentHashMap<>();

  @TLAPlusOperator(identifier = "AESChain", module = "AES", warn = false)
  public static Value aesChain(Value key, Value z, Value x, Value at) throws Exception {
    byte[] k = Ovr.b(key), y = Ovr.b(z), blk = Ovr.b(x);
    Value[] places = ((TupleValue) at.toTuple()).elems;
    String name = key + "/" + z + "/" + x + "/" + at;
    Value known = chains.get(name);
    if (known != null) return known;
    int last = -1;
    for (Value p : places) last = Math.max(last, Ovr.in(p));
    javax.crypto.Cipher c = javax.crypto.Cipher.getInstance("AES/CBC/NoPadding");
    c.init(javax.crypto.Cipher.ENCRYPT_MODE, new javax.crypto.spec.SecretKeySpec(k, "AES"), new javax.crypto.spec.IvParameterSpec(y));
    int per = 1 << 9; // short calls are compiled sooner
    byte[] in = new byte[16 * per], out = new byte[16 * per];
    for (int i = 0; i < in.length; i++) in[i] = blk[i % 16];
    Value[] r = new Value[places.length];
    for (int done = 0; done <= last; ) {
      int n = Math.min(per, last + 1 - done);
      c.update(in, 0, 16 * n, out, 0);
      for (int j = 0; j < r.length; j++) {
        int p = Ovr.in(places[j]) - done;
        if (p >= 0 && p < n) r[j] = Ovr.t(java.util.Arrays.copyOfRange(out, 16 * p, 16 * p + 16));
      }
      done += n;
    }
    known = new TupleValue(r);
    if (last > 1000) chains.put(name, known);
    return known;
  }
}
