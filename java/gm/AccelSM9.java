package gm;

import java.math.BigInteger;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluated forms of SM9Field.tla; SM9Check.tla compares them with their definitions. */
public class AccelSM9 {
  static final BigInteger P = new BigInteger("B640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D", 16);
  static final BigInteger N = new BigInteger("B640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25", 16);
  static final BigInteger TWO = BigInteger.valueOf(2), ZERO = BigInteger.ZERO, ONE = BigInteger.ONE;

  static Value[] el(Value v) {
    return ((TupleValue) v.toTuple()).elems;
  }

  static BigInteger[] x(Value v) {
    Value[] e = el(v);
    BigInteger[] r = new BigInteger[e.length];
    for (int i = 0; i < r.length; i++) r[i] = Ovr.n(e[i]);
    return r;
  }

  static Value t(BigInteger[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) e[i] = Ovr.t(Ovr.fixed(a[i], 32));
    return new TupleValue(e);
  }

  static BigInteger[] one(int d) {
    BigInteger[] r = new BigInteger[d];
    Arrays.fill(r, ZERO);
    r[0] = ONE;
    return r;
  }

  static BigInteger[] mul(BigInteger[] a, BigInteger[] b) {
    int d = a.length;
    BigInteger[] w = new BigInteger[2 * d - 1];
    Arrays.fill(w, ZERO);
    for (int i = 0; i < d; i++) {
      if (a[i].signum() == 0) continue;
      for (int j = 0; j < d; j++) if (b[j].signum() != 0) w[i + j] = w[i + j].add(a[i].multiply(b[j]));
    }
    BigInteger[] r = new BigInteger[d];
    for (int k = 0; k < d; k++) r[k] = (k + d < w.length ? w[k].subtract(w[k + d].shiftLeft(1)) : w[k]).mod(P);
    return r;
  }

  static BigInteger[] add(BigInteger[] a, BigInteger[] b) {
    BigInteger[] r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i].add(b[i]).mod(P);
    return r;
  }

  static BigInteger[] sub(BigInteger[] a, BigInteger[] b) {
    BigInteger[] r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i].subtract(b[i]).mod(P);
    return r;
  }

  static boolean zero(BigInteger[] a) {
    for (BigInteger v : a) if (v.signum() != 0) return false;
    return true;
  }

  /** extended Euclid with X^d + 2 */
  static BigInteger[] inv(BigInteger[] a) {
    int d = a.length;
    if (zero(a)) throw new RuntimeException("inverse of zero");
    if (d == 1) return new BigInteger[] {a[0].modInverse(P)};
    BigInteger[] r0 = new BigInteger[d + 1], r1 = Arrays.copyOf(a, d + 1), s0 = new BigInteger[d + 1], s1 = new BigInteger[d + 1];
    Arrays.fill(r0, ZERO);
    Arrays.fill(s0, ZERO);
    Arrays.fill(s1, ZERO);
    r0[0] = TWO;
    r0[d] = ONE;
    r1[d] = ZERO;
    s1[0] = ONE;
    while (deg(r1) > 0) {
      int d1 = deg(r1);
      BigInteger li = r1[d1].modInverse(P);
      for (int k = deg(r0); k >= d1; k = deg(r0)) {
        BigInteger q = r0[k].multiply(li).mod(P);
        int s = k - d1;
        for (int i = 0; i <= d1; i++) r0[i + s] = r0[i + s].subtract(q.multiply(r1[i])).mod(P);
        for (int i = 0; i + s <= d; i++) s0[i + s] = s0[i + s].subtract(q.multiply(s1[i])).mod(P);
      }
      BigInteger[] t = r0;
      r0 = r1;
      r1 = t;
      t = s0;
      s0 = s1;
      s1 = t;
    }
    BigInteger i = r1[0].modInverse(P);
    BigInteger[] r = new BigInteger[d];
    for (int k = 0; k < d; k++) r[k] = s1[k].multiply(i).mod(P);
    return r;
  }

  static int deg(BigInteger[] a) {
    for (int i = a.length - 1; i >= 0; i--) if (a[i].signum() != 0) return i;
    return -1;
  }

  static BigInteger[] pow(BigInteger[] a, BigInteger e) {
    BigInteger[] r = one(a.length);
    for (int i = e.bitLength() - 1; i >= 0; i--) {
      r = mul(r, r);
      if (e.testBit(i)) r = mul(r, a);
    }
    return r;
  }

  @TLAPlusOperator(identifier = "XMul", module = "SM9Field", warn = false)
  public static Value xMul(Value a, Value b) {
    return t(mul(x(a), x(b)));
  }

  @TLAPlusOperator(identifier = "XInv", module = "SM9Field", warn = false)
  public static Value xInv(Value a) {
    BigInteger[] v = x(a), r = inv(v);
    if (!Arrays.equals(mul(v, r), one(v.length))) throw new RuntimeException("inverse");
    return t(r);
  }

  static final ConcurrentHashMap<String, BigInteger[][]> memo = new ConcurrentHashMap<>();

  static String key(String what, BigInteger[]... v) {
    StringBuilder s = new StringBuilder(what);
    for (BigInteger[] a : v) for (BigInteger y : a) s.append(',').append(y.toString(36));
    return s.toString();
  }

  static BigInteger[][] once(String k, java.util.function.Supplier<BigInteger[][]> f) {
    BigInteger[][] r = memo.get(k);
    if (r == null) {
      r = f.get();
      if (memo.size() < 50000) memo.put(k, r);
    }
    return r;
  }

  @TLAPlusOperator(identifier = "XPow", module = "SM9Field", warn = false)
  public static Value xPow(Value a, Value e) {
    BigInteger[] v = x(a);
    BigInteger ee = Ovr.n(e);
    return t(once(key("p", v, new BigInteger[] {ee}), () -> new BigInteger[][] {pow(v, ee)})[0]);
  }

  // ---- points; null is infinity ----
  static BigInteger[][] pt(Value v) {
    Value[] e = el(v);
    return e.length == 0 ? null : new BigInteger[][] {x(e[0]), x(e[1])};
  }

  static Value tp(BigInteger[][] p) {
    return p == null ? new TupleValue(new Value[0]) : new TupleValue(new Value[] {t(p[0]), t(p[1])});
  }

  static BigInteger[] slope(BigInteger[][] p, BigInteger[][] q) {
    if (Arrays.equals(p[0], q[0])) {
      BigInteger[] s = mul(p[0], p[0]);
      return mul(add(add(s, s), s), inv(add(p[1], p[1])));
    }
    return mul(sub(q[1], p[1]), inv(sub(q[0], p[0])));
  }

  static BigInteger[][] add(BigInteger[][] p, BigInteger[][] q) {
    if (p == null) return q;
    if (q == null) return p;
    if (Arrays.equals(p[0], q[0]) && (!Arrays.equals(p[1], q[1]) || zero(p[1]))) return null;
    return chord(p, q, slope(p, q));
  }

  static BigInteger[][] chord(BigInteger[][] p, BigInteger[][] q, BigInteger[] s) {
    BigInteger[] xx = sub(sub(mul(s, s), p[0]), q[0]);
    return new BigInteger[][] {xx, sub(mul(s, sub(p[0], xx)), p[1])};
  }

  @TLAPlusOperator(identifier = "XPtAdd", module = "SM9Field", warn = false)
  public static Value xPtAdd(Value p, Value q) {
    return tp(add(pt(p), pt(q)));
  }

  static final BigInteger[][] INF = new BigInteger[0][];

  @TLAPlusOperator(identifier = "XPtMul", module = "SM9Field", warn = false)
  public static Value xPtMul(Value k, Value p) {
    BigInteger e = Ovr.n(k);
    BigInteger[][] q = pt(p);
    if (q == null || e.signum() == 0) return tp(null);
    BigInteger[][] r = once(key("m", q[0], q[1], new BigInteger[] {e}), () -> {
      BigInteger[][] a = null;
      for (int i = e.bitLength() - 1; i >= 0; i--) {
        a = add(a, a);
        if (e.testBit(i)) a = add(a, q);
      }
      return a == null ? INF : a;
    });
    return tp(r == INF ? null : r);
  }

  // ---- the pairing, with the twist's coordinates and the subfields' Frobenius maps ----
  static final BigInteger C = P.subtract(TWO).modPow(P.subtract(ONE).divide(BigInteger.valueOf(12)), P); // w^(p-1)
  static final BigInteger HALF = TWO.modInverse(P);
  static final BigInteger HARD = P.pow(4).subtract(P.pow(2)).add(ONE).divide(N);
  static final BigInteger LOOP = new BigInteger("2400000000215D93E", 16);

  /** c w^-i for c in F_p2, 0 < i < 12 */
  static void put(BigInteger[] r, BigInteger[] c, int i) {
    for (int k = 0; k < 2; k++) {
      if (c[k].signum() == 0) continue;
      int e = 6 * k - i;
      BigInteger v = c[k];
      if (e < 0) {
        e += 12;
        v = v.multiply(HALF).negate();
      }
      r[e] = r[e].add(v).mod(P);
    }
  }

  static BigInteger[] line(BigInteger[][] u, BigInteger[] s, BigInteger px, BigInteger py) {
    BigInteger[] r = new BigInteger[12];
    Arrays.fill(r, ZERO);
    r[0] = P.subtract(py).mod(P);
    put(r, mul(s, new BigInteger[] {px, ZERO}), 1);
    put(r, sub(u[1], mul(s, u[0])), 3);
    return r;
  }

  static BigInteger[] frob(BigInteger[] f, BigInteger c) {
    BigInteger[] r = new BigInteger[f.length];
    BigInteger m = ONE;
    for (int i = 0; i < f.length; i++) {
      r[i] = f[i].multiply(m).mod(P);
      m = m.multiply(c).mod(P);
    }
    return r;
  }

  static BigInteger[][] frobTwist(BigInteger[][] q) {
    BigInteger ci = C.modInverse(P), c2 = ci.multiply(ci).mod(P), c3 = c2.multiply(ci).mod(P);
    return new BigInteger[][] {{q[0][0].multiply(c2).mod(P), P.subtract(q[0][1]).multiply(c2).mod(P)}, {q[1][0].multiply(c3).mod(P), P.subtract(q[1][1]).multiply(c3).mod(P)}};
  }

  static BigInteger[] pairing(BigInteger[] p, BigInteger[][] q) {
    BigInteger[] f = one(12);
    BigInteger[][] t = q;
    for (int i = LOOP.bitLength() - 2; i >= 0; i--) {
      BigInteger[] s = slope(t, t);
      f = mul(mul(f, f), line(t, s, p[0], p[1]));
      t = chord(t, t, s);
      if (LOOP.testBit(i)) {
        s = slope(t, q);
        f = mul(f, line(q, s, p[0], p[1]));
        t = chord(t, q, s);
      }
    }
    BigInteger[][] q1 = frobTwist(q), q2 = frobTwist(q1);
    q2 = new BigInteger[][] {q2[0], sub(new BigInteger[] {ZERO, ZERO}, q2[1])};
    BigInteger[] s = slope(t, q1);
    f = mul(f, line(q1, s, p[0], p[1]));
    t = chord(t, q1, s);
    f = mul(f, line(q2, slope(t, q2), p[0], p[1]));
    // f^(p^6 - 1), then ^(p^2 + 1), then the rest
    f = mul(frob(f, P.subtract(ONE)), inv(f));
    f = mul(frob(f, C.multiply(C).mod(P)), f);
    return pow(f, HARD);
  }

  @TLAPlusOperator(identifier = "Pairing", module = "SM9Field", warn = false)
  public static Value pairing(Value p, Value q) {
    Value[] e = el(p);
    BigInteger[] a = {Ovr.n(e[0]), Ovr.n(e[1])};
    BigInteger[][] b = pt(q);
    return t(once(key("e", a, b[0], b[1]), () -> new BigInteger[][] {pairing(a, b)})[0]);
  }
}
