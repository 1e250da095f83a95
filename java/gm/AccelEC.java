package gm;

import java.math.BigInteger;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluated forms of EC.tla; OverrideCheck.tla compares them with their definitions. */
public class AccelEC {
  static Value field(Value rec, String f) {
    return ((RecordValue) rec.toRcd()).apply(new StringValue(f), 0);
  }

  static BigInteger[] pt(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    if (e.length == 0) return null;
    return new BigInteger[] {Ovr.n(e[0]), Ovr.n(e[1])};
  }

  static Value pt(BigInteger[] q, int len) {
    if (q == null) return new TupleValue(new Value[0]);
    return new TupleValue(new Value[] {Ovr.t(Ovr.fixed(q[0], len)), Ovr.t(Ovr.fixed(q[1], len))});
  }

  static BigInteger[] add(BigInteger p, BigInteger a, BigInteger[] P, BigInteger[] Q) {
    if (P == null) return Q;
    if (Q == null) return P;
    BigInteger s;
    if (P[0].equals(Q[0])) {
      if (!P[1].equals(Q[1]) || P[1].signum() == 0) return null;
      s = P[0].multiply(P[0]).multiply(BigInteger.valueOf(3)).add(a).multiply(P[1].shiftLeft(1).modInverse(p)).mod(p);
    } else {
      s = Q[1].subtract(P[1]).multiply(Q[0].subtract(P[0]).mod(p).modInverse(p)).mod(p);
    }
    BigInteger x = s.multiply(s).subtract(P[0]).subtract(Q[0]).mod(p);
    return new BigInteger[] {x, s.multiply(P[0].subtract(x)).subtract(P[1]).mod(p)};
  }

  @TLAPlusOperator(identifier = "ECAdd", module = "EC", warn = false)
  public static Value ecAdd(Value c, Value P, Value Q) {
    Value vp = field(c, "p");
    int len = ((TupleValue) vp.toTuple()).elems.length;
    return pt(add(Ovr.n(vp), Ovr.n(field(c, "a")), pt(P), pt(Q)), len);
  }

  static final ConcurrentHashMap<String, BigInteger[]> memo = new ConcurrentHashMap<>();
  static final BigInteger[] INF = new BigInteger[0];

  @TLAPlusOperator(identifier = "ECMul", module = "EC", warn = false)
  public static Value ecMul(Value c, Value k, Value P) {
    Value vp = field(c, "p");
    int len = ((TupleValue) vp.toTuple()).elems.length;
    BigInteger p = Ovr.n(vp), a = Ovr.n(field(c, "a")), e = Ovr.n(k);
    BigInteger[] q = pt(P);
    if (q == null || e.signum() == 0) return pt((BigInteger[]) null, len);
    String key = p.toString(36) + "," + a.toString(36) + "," + e.toString(36) + "," + q[0].toString(36) + "," + q[1].toString(36);
    BigInteger[] r = memo.get(key);
    if (r == null) {
      r = mul(p, a, e, q);
      if (memo.size() < 200000) memo.put(key, r == null ? INF : r);
    }
    return pt(r == INF ? null : r, len);
  }

  // Jacobian coordinates, left to right
  static BigInteger[] mul(BigInteger p, BigInteger a, BigInteger e, BigInteger[] q) {
    BigInteger X = null, Y = null, Z = BigInteger.ZERO;
    for (int i = e.bitLength() - 1; i >= 0; i--) {
      if (Z.signum() != 0) { // double
        BigInteger Y2 = Y.multiply(Y).mod(p);
        BigInteger S = X.multiply(Y2).shiftLeft(2).mod(p);
        BigInteger Z2 = Z.multiply(Z).mod(p);
        BigInteger M = X.multiply(X).multiply(BigInteger.valueOf(3)).add(a.multiply(Z2).mod(p).multiply(Z2)).mod(p);
        BigInteger X3 = M.multiply(M).subtract(S.shiftLeft(1)).mod(p);
        BigInteger Y3 = M.multiply(S.subtract(X3)).subtract(Y2.multiply(Y2).shiftLeft(3)).mod(p);
        Z = Y.multiply(Z).shiftLeft(1).mod(p);
        X = X3;
        Y = Y3;
      }
      if (e.testBit(i)) {
        if (Z.signum() == 0) {
          X = q[0];
          Y = q[1];
          Z = BigInteger.ONE;
        } else {
          BigInteger Z2 = Z.multiply(Z).mod(p);
          BigInteger H = q[0].multiply(Z2).subtract(X).mod(p);
          BigInteger R = q[1].multiply(Z2).mod(p).multiply(Z).subtract(Y).mod(p);
          if (H.signum() == 0) { // equal or opposite: the affine rule
            BigInteger[] s = add(p, a, affine(p, X, Y, Z), q);
            if (s == null) {
              Z = BigInteger.ZERO;
            } else {
              X = s[0];
              Y = s[1];
              Z = BigInteger.ONE;
            }
          } else {
            BigInteger H2 = H.multiply(H).mod(p), H3 = H2.multiply(H).mod(p), V = X.multiply(H2).mod(p);
            BigInteger X3 = R.multiply(R).subtract(H3).subtract(V.shiftLeft(1)).mod(p);
            Y = R.multiply(V.subtract(X3)).subtract(Y.multiply(H3)).mod(p);
            X = X3;
            Z = Z.multiply(H).mod(p);
          }
        }
      }
    }
    return Z.signum() == 0 ? null : affine(p, X, Y, Z);
  }

  static BigInteger[] affine(BigInteger p, BigInteger X, BigInteger Y, BigInteger Z) {
    BigInteger zi = Z.modInverse(p), z2 = zi.multiply(zi).mod(p);
    return new BigInteger[] {X.multiply(z2).mod(p), Y.multiply(z2).mod(p).multiply(zi).mod(p)};
  }
}
