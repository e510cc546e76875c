import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluates the operators of module Wide. WideTest.tla compares them with WideDef.tla. */
public class Wide {
  static final BigInteger TWO = BigInteger.TWO;
  static TupleValue tup(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Wide: not a sequence: " + v);
    return (TupleValue) t;
  }
  static byte[] bytes(Value v) {
    TupleValue t = tup(v);
    byte[] b = new byte[t.elems.length];
    for (int i = 0; i < b.length; i++) {
      int x = ((IntValue) t.elems[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("Wide: not a byte: " + x);
      b[i] = (byte) x;
    }
    return b;
  }
  static int len(Value v) { return tup(v).elems.length; }
  static BigInteger un(byte[] le) {
    byte[] be = new byte[le.length];
    for (int i = 0; i < be.length; i++) be[i] = le[le.length - 1 - i];
    return new BigInteger(1, be);
  }
  static BigInteger un(Value v) { return un(bytes(v)); }
  static BigInteger si(Value v) {
    byte[] b = bytes(v);
    BigInteger x = un(b);
    if (b.length > 0 && b[b.length - 1] < 0) x = x.subtract(BigInteger.ONE.shiftLeft(8 * b.length));
    return x;
  }
  static final IntValue[] BYTES = new IntValue[256];
  static { for (int i = 0; i < 256; i++) BYTES[i] = IntValue.gen(i); }
  static Value mk(BigInteger x, int n) {
    byte[] be = x.toByteArray();
    int fill = x.signum() < 0 ? 255 : 0;
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++) e[i] = BYTES[i < be.length ? be[be.length - 1 - i] & 255 : fill];
    return new TupleValue(e);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int in(Value v) { return ((IntValue) v).val; }

  public static Value Eager(Value a) { return tup(a); }
  public static Value Zeros(Value n) { return mk(BigInteger.ZERO, in(n)); }
  public static Value Negative(Value a) { return bool(si(a).signum() < 0); }
  public static Value Ext(Value a, Value n) { return mk(un(a), in(n)); }
  public static Value SExt(Value a, Value n) { return mk(si(a), in(n)); }
  public static Value Add(Value a, Value b) { return mk(un(a).add(un(b)), len(a)); }
  public static Value Sub(Value a, Value b) { return mk(un(a).subtract(un(b)), len(a)); }
  public static Value Negate(Value a) { return mk(un(a).negate(), len(a)); }
  public static Value Not(Value a) { return mk(un(a).not(), len(a)); }
  public static Value Mul(Value a, Value b) { return mk(un(a).multiply(un(b)), len(a)); }
  public static Value MulFull(Value a, Value b) { return mk(un(a).multiply(un(b)), len(a) + len(b)); }
  public static Value Lt(Value a, Value b) { return bool(un(a).compareTo(un(b)) < 0); }
  public static Value Le(Value a, Value b) { return bool(un(a).compareTo(un(b)) <= 0); }
  public static Value NumEq(Value a, Value b) { return bool(un(a).equals(un(b))); }
  public static Value SLt(Value a, Value b) { return bool(si(a).compareTo(si(b)) < 0); }
  public static Value Bit(Value a, Value k) { return BYTES[un(a).testBit(in(k)) ? 1 : 0]; }
  public static Value Shl(Value a, Value k) { return mk(un(a).shiftLeft(in(k)), len(a)); }
  public static Value Shr(Value a, Value k) { return mk(un(a).shiftRight(in(k)), len(a)); }
  public static Value Sar(Value a, Value k) { return mk(si(a).shiftRight(in(k)), len(a)); }
  public static Value And(Value a, Value b) { return mk(un(a).and(un(b)), len(a)); }
  public static Value Or(Value a, Value b) { return mk(un(a).or(un(b)), len(a)); }
  public static Value Xor(Value a, Value b) { return mk(un(a).xor(un(b)), len(a)); }
  public static Value Low(Value a, Value k) { return mk(un(a).mod(BigInteger.ONE.shiftLeft(in(k))), len(a)); }
  public static Value Div(Value a, Value q) { return mk(un(a).divide(un(q)), len(a)); }
  public static Value Rem(Value a, Value q) { return mk(un(a).mod(un(q)), len(q)); }
  public static Value FromNat(Value x, Value n) { return mk(BigInteger.valueOf(in(x)), in(n)); }
  public static Value FromInt(Value x, Value n) { return mk(BigInteger.valueOf(in(x)), in(n)); }
  public static Value ToNat(Value a) { return IntValue.gen(un(a).intValueExact()); }
  public static Value ToInt(Value a) { return IntValue.gen(si(a).intValueExact()); }

  static BigInteger[] vec(Value v) {
    TupleValue t = tup(v);
    BigInteger[] r = new BigInteger[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = un(t.elems[i]);
    return r;
  }
  static int wid(Value v) { TupleValue t = tup(v); return t.elems.length == 0 ? 0 : len(t.elems[0]); }
  static Value mkv(BigInteger[] r, int w) {
    Value[] e = new Value[r.length];
    for (int i = 0; i < r.length; i++) e[i] = mk(r[i], w);
    return new TupleValue(e);
  }
  public static Value VAdd(Value a, Value b) {
    BigInteger[] x = vec(a), y = vec(b);
    for (int i = 0; i < x.length; i++) x[i] = x[i].add(y[i]);
    return mkv(x, wid(a));
  }
  public static Value VSub(Value a, Value b) {
    BigInteger[] x = vec(a), y = vec(b);
    for (int i = 0; i < x.length; i++) x[i] = x[i].subtract(y[i]);
    return mkv(x, wid(a));
  }
  public static Value VWithin(Value a, Value b, Value kv) {
    BigInteger[] x = vec(a), y = vec(b);
    int k = in(kv), bits = 8 * wid(a);
    if (x.length != y.length) return bool(false);
    BigInteger q = BigInteger.ONE.shiftLeft(bits), lim = k < 0 ? BigInteger.ONE : BigInteger.ONE.shiftLeft(k);
    for (int i = 0; i < x.length; i++) {
      if (k < 0 && len(tup(a).elems[i]) != len(tup(b).elems[i])) return bool(false);
      BigInteger d = x[i].subtract(y[i]).mod(q);
      if (k < bits && d.compareTo(lim) >= 0 && q.subtract(d).mod(q).compareTo(lim) >= 0) return bool(false);
    }
    return bool(true);
  }
  public static Value VNeg(Value a) {
    BigInteger[] x = vec(a);
    for (int i = 0; i < x.length; i++) x[i] = x[i].negate();
    return mkv(x, wid(a));
  }
  public static Value VScale(Value a, Value s) {
    BigInteger[] x = vec(a);
    BigInteger k = un(s);
    for (int i = 0; i < x.length; i++) x[i] = x[i].multiply(k);
    return mkv(x, wid(a));
  }
  public static Value MonoMul(Value a, Value kv) {
    BigInteger[] x = vec(a), r = new BigInteger[x.length];
    int n = x.length, k = in(kv);
    for (int i = 0; i < n; i++) {
      int j = Math.floorMod(i - k, 2 * n);
      r[i] = j < n ? x[j] : x[j - n].negate();
    }
    return mkv(r, wid(a));
  }
  public static Value NegMul(Value a, Value b) {
    int w = wid(b);
    BigInteger[] x = vec(a), y = vec(b);
    int n = y.length;
    if (w <= 8) {
      long[] p = new long[x.length], q = new long[n], r = new long[n];
      for (int i = 0; i < x.length; i++) p[i] = x[i].longValue();
      for (int i = 0; i < n; i++) q[i] = y[i].longValue();
      for (int i = 0; i < p.length; i++) {
        if (p[i] == 0) continue;
        for (int j = 0; j < n; j++) {
          int k = (i + j) % (2 * n);
          if (k < n) r[k] += p[i] * q[j]; else r[k - n] -= p[i] * q[j];
        }
      }
      BigInteger[] z = new BigInteger[n];
      for (int i = 0; i < n; i++) z[i] = BigInteger.valueOf(r[i]);
      return mkv(z, w);
    }
    BigInteger[] r = new BigInteger[n];
    java.util.Arrays.fill(r, BigInteger.ZERO);
    for (int i = 0; i < x.length; i++)
      for (int j = 0; j < n; j++) {
        int k = (i + j) % (2 * n);
        if (k < n) r[k] = r[k].add(x[i].multiply(y[j])); else r[k - n] = r[k - n].subtract(x[i].multiply(y[j]));
      }
    return mkv(r, w);
  }
}
