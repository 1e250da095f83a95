package gm;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluated forms of the operators of Bytes.tla and BigNum.tla. */
public class Ovr implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] {Ovr.class, Accel.class, AccelEC.class, AccelSM9.class};
  }

  static final IntValue[] IV = new IntValue[256];
  static {
    for (int i = 0; i < 256; i++) IV[i] = IntValue.gen(i);
  }

  static byte[] b(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a byte string: " + v);
    Value[] e = ((TupleValue) t).elems;
    byte[] r = new byte[e.length];
    for (int i = 0; i < r.length; i++) {
      int x = ((IntValue) e[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
      r[i] = (byte) x;
    }
    return r;
  }

  static TupleValue t(byte[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) e[i] = IV[a[i] & 255];
    return new TupleValue(e);
  }

  static int in(Value v) {
    return ((IntValue) v).val;
  }

  static BigInteger n(Value v) {
    return new BigInteger(1, b(v));
  }

  static TupleValue t(BigInteger x) {
    if (x.signum() < 0) throw new RuntimeException("negative number");
    if (x.signum() == 0) return new TupleValue(new Value[0]);
    byte[] a = x.toByteArray();
    if (a[0] == 0) a = java.util.Arrays.copyOfRange(a, 1, a.length);
    return t(a);
  }

  static void same(byte[] x, byte[] y) {
    if (x.length != y.length)
      throw new RuntimeException("length mismatch " + x.length + " " + y.length);
  }

  // ---------------- Bytes ----------------
  @TLAPlusOperator(identifier = "Zeros", module = "Bytes", warn = false)
  public static Value zeros(Value nn) {
    return t(new byte[in(nn)]);
  }

  @TLAPlusOperator(identifier = "Fill", module = "Bytes", warn = false)
  public static Value fill(Value x, Value nn) {
    byte[] a = new byte[in(nn)];
    java.util.Arrays.fill(a, (byte) in(x));
    return t(a);
  }

  @TLAPlusOperator(identifier = "XorB", module = "Bytes", warn = false)
  public static Value xorB(Value a, Value c) {
    byte[] x = b(a), y = b(c);
    same(x, y);
    for (int i = 0; i < x.length; i++) x[i] ^= y[i];
    return t(x);
  }

  @TLAPlusOperator(identifier = "AndB", module = "Bytes", warn = false)
  public static Value andB(Value a, Value c) {
    byte[] x = b(a), y = b(c);
    same(x, y);
    for (int i = 0; i < x.length; i++) x[i] &= y[i];
    return t(x);
  }

  @TLAPlusOperator(identifier = "OrB", module = "Bytes", warn = false)
  public static Value orB(Value a, Value c) {
    byte[] x = b(a), y = b(c);
    same(x, y);
    for (int i = 0; i < x.length; i++) x[i] |= y[i];
    return t(x);
  }

  @TLAPlusOperator(identifier = "NotB", module = "Bytes", warn = false)
  public static Value notB(Value a) {
    byte[] x = b(a);
    for (int i = 0; i < x.length; i++) x[i] = (byte) ~x[i];
    return t(x);
  }

  static byte[] fixed(BigInteger x, int len) {
    byte[] r = new byte[len];
    byte[] a = x.toByteArray();
    for (int i = 0; i < len && i < a.length; i++) r[len - 1 - i] = a[a.length - 1 - i];
    return r;
  }

  @TLAPlusOperator(identifier = "RotL", module = "Bytes", warn = false)
  public static Value rotL(Value a, Value nn) {
    byte[] x = b(a);
    int w = 8 * x.length;
    if (w == 0) return t(x);
    int k = in(nn) % w;
    if (w == 32) {
      int v = ((x[0] & 255) << 24) | ((x[1] & 255) << 16) | ((x[2] & 255) << 8) | (x[3] & 255);
      v = Integer.rotateLeft(v, k);
      return new TupleValue(
          new Value[] {IV[v >>> 24], IV[(v >>> 16) & 255], IV[(v >>> 8) & 255], IV[v & 255]});
    }
    BigInteger v = new BigInteger(1, x);
    BigInteger m = BigInteger.ONE.shiftLeft(w).subtract(BigInteger.ONE);
    return t(fixed(v.shiftLeft(k).or(v.shiftRight(w - k)).and(m), x.length));
  }

  @TLAPlusOperator(identifier = "Shl", module = "Bytes", warn = false)
  public static Value shl(Value a, Value nn) {
    byte[] x = b(a);
    return t(fixed(new BigInteger(1, x).shiftLeft(in(nn)), x.length));
  }

  @TLAPlusOperator(identifier = "Shr", module = "Bytes", warn = false)
  public static Value shr(Value a, Value nn) {
    byte[] x = b(a);
    return t(fixed(new BigInteger(1, x).shiftRight(in(nn)), x.length));
  }

  @TLAPlusOperator(identifier = "AddBE", module = "Bytes", warn = false)
  public static Value addBE(Value a, Value c) {
    byte[] x = b(a), y = b(c);
    same(x, y);
    int cy = 0;
    for (int i = x.length - 1; i >= 0; i--) {
      int s = (x[i] & 255) + (y[i] & 255) + cy;
      x[i] = (byte) s;
      cy = s >> 8;
    }
    return t(x);
  }

  @TLAPlusOperator(identifier = "Subst", module = "Bytes", warn = false)
  public static Value subst(Value tb, Value a) {
    Value[] tab = ((TupleValue) tb.toTuple()).elems;
    Value[] e = ((TupleValue) a.toTuple()).elems;
    Value[] r = new Value[e.length];
    for (int i = 0; i < r.length; i++) r[i] = tab[((IntValue) e[i]).val];
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "IntBE", module = "Bytes", warn = false)
  public static Value intBE(Value a, Value nn) {
    return t(fixed(BigInteger.valueOf(in(a)), in(nn)));
  }

  @TLAPlusOperator(identifier = "BEInt", module = "Bytes", warn = false)
  public static Value beInt(Value a) {
    return IntValue.gen(n(a).intValueExact());
  }

  @TLAPlusOperator(identifier = "RevB", module = "Bytes", warn = false)
  public static Value revB(Value a) {
    Value[] e = ((TupleValue) a.toTuple()).elems;
    Value[] r = new Value[e.length];
    for (int i = 0; i < r.length; i++) r[i] = e[e.length - 1 - i];
    return new TupleValue(r);
  }

  // ---------------- BigNum ----------------
  @TLAPlusOperator(identifier = "Norm", module = "BigNum", warn = false)
  public static Value norm(Value a) {
    return t(n(a));
  }

  @TLAPlusOperator(identifier = "BCmp", module = "BigNum", warn = false)
  public static Value bcmp(Value a, Value c) {
    return IntValue.gen(n(a).compareTo(n(c)));
  }

  @TLAPlusOperator(identifier = "BAdd", module = "BigNum", warn = false)
  public static Value badd(Value a, Value c) {
    return t(n(a).add(n(c)));
  }

  @TLAPlusOperator(identifier = "BSub", module = "BigNum", warn = false)
  public static Value bsub(Value a, Value c) {
    return t(n(a).subtract(n(c)));
  }

  @TLAPlusOperator(identifier = "BMul", module = "BigNum", warn = false)
  public static Value bmul(Value a, Value c) {
    return t(n(a).multiply(n(c)));
  }

  @TLAPlusOperator(identifier = "BDivMod", module = "BigNum", warn = false)
  public static Value bdivmod(Value a, Value m) {
    BigInteger[] r = n(a).divideAndRemainder(n(m));
    return new TupleValue(new Value[] {t(r[0]), t(r[1])});
  }

  @TLAPlusOperator(identifier = "BMod", module = "BigNum", warn = false)
  public static Value bmod(Value a, Value m) {
    return t(n(a).mod(n(m)));
  }

  @TLAPlusOperator(identifier = "MAdd", module = "BigNum", warn = false)
  public static Value madd(Value a, Value c, Value m) {
    return t(n(a).add(n(c)).mod(n(m)));
  }

  @TLAPlusOperator(identifier = "MSub", module = "BigNum", warn = false)
  public static Value msub(Value a, Value c, Value m) {
    return t(n(a).subtract(n(c)).mod(n(m)));
  }

  @TLAPlusOperator(identifier = "MMul", module = "BigNum", warn = false)
  public static Value mmul(Value a, Value c, Value m) {
    return t(n(a).multiply(n(c)).mod(n(m)));
  }

  @TLAPlusOperator(identifier = "MExp", module = "BigNum", warn = false)
  public static Value mexp(Value a, Value e, Value m) {
    return t(n(a).modPow(n(e), n(m)));
  }

  @TLAPlusOperator(identifier = "MInv", module = "BigNum", warn = false)
  public static Value minv(Value a, Value m) {
    BigInteger x = n(a).mod(n(m));
    return t(x.signum() == 0 ? BigInteger.ZERO : x.modInverse(n(m)));
  }
}
