import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.*;

/** Accelerators for module ByteNum. Each is checked against its TLA+ definition by MC_ByteNum. */
public class VerifOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override public Class[] get() { return new Class[] { VerifOverrides.class }; }

  private static final IntValue[] B = new IntValue[256];
  static { for (int i = 0; i < 256; i++) B[i] = IntValue.gen(i); }

  private static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("ByteNum: not a sequence: " + v.getKindString());
    return t.elems;
  }
  private static BigInteger big(Value v) {
    Value[] e = elems(v);
    byte[] b = new byte[e.length];
    for (int i = 0; i < e.length; i++) {
      int x = ((IntValue) e[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("ByteNum: not a byte: " + x);
      b[e.length - 1 - i] = (byte) x;
    }
    return new BigInteger(1, b);
  }
  private static int small(Value v) { return ((IntValue) v).val; }
  private static Value out(BigInteger n, int w) {
    byte[] b = n.toByteArray(); // big endian two's complement, n >= 0
    Value[] e = new Value[w];
    for (int i = 0; i < w; i++) { int j = b.length - 1 - i; e[i] = B[j >= 0 ? b[j] & 255 : 0]; }
    return new TupleValue(e);
  }
  /** value as a long if it has at most 8 bytes (two's complement arithmetic mod 2^64 is then exact mod 256^w, w <= 8) */
  private static boolean fits(Value[] e) { return e.length <= 8; }
  private static long lng(Value[] e) {
    long r = 0;
    for (int i = e.length - 1; i >= 0; i--) {
      int x = ((IntValue) e[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("ByteNum: not a byte: " + x);
      r = r << 8 | x;
    }
    return r;
  }
  private static Value lout(long n, int w) {
    Value[] e = new Value[w];
    for (int i = 0; i < w; i++) { e[i] = B[(int) (n & 255)]; n >>>= 8; }
    return new TupleValue(e);
  }
  private static Value mod2(BigInteger n, int w) {
    return out(n.mod(BigInteger.ONE.shiftLeft(8 * w)), w);
  }

  @TLAPlusOperator(identifier = "Fit", module = "ByteNum", warn = false)
  public static Value fit(Value a, Value w) {
    Value[] e = elems(a); int n = small(w); Value[] o = new Value[n];
    for (int i = 0; i < n; i++) o[i] = i < e.length ? e[i] : B[0];
    return new TupleValue(o);
  }
  @TLAPlusOperator(identifier = "Add", module = "ByteNum", warn = false)
  public static Value add(Value a, Value b, Value w) {
    Value[] x = elems(a), y = elems(b); int n = small(w);
    if (n <= 8 && fits(x) && fits(y)) return lout(lng(x) + lng(y), n);
    return mod2(big(a).add(big(b)), small(w));
  }
  @TLAPlusOperator(identifier = "Sub", module = "ByteNum", warn = false)
  public static Value sub(Value a, Value b, Value w) { return mod2(big(a).subtract(big(b)), small(w)); }
  @TLAPlusOperator(identifier = "Mul", module = "ByteNum", warn = false)
  public static Value mul(Value a, Value b, Value w) { return mod2(big(a).multiply(big(b)), small(w)); }
  @TLAPlusOperator(identifier = "Cmp", module = "ByteNum", warn = false)
  public static Value cmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  @TLAPlusOperator(identifier = "Div", module = "ByteNum", warn = false)
  public static Value div(Value a, Value b, Value w) { return mod2(big(a).divide(big(b)), small(w)); }
  @TLAPlusOperator(identifier = "Mod", module = "ByteNum", warn = false)
  public static Value mod(Value a, Value b, Value w) { return mod2(big(a).mod(big(b)), small(w)); }
  private static Value bits(Value a, Value b, Value w, int op) {
    Value[] x = elems(a), y = elems(b); int n = small(w); Value[] o = new Value[n];
    for (int i = 0; i < n; i++) {
      int p = i < x.length ? ((IntValue) x[i]).val : 0, q = i < y.length ? ((IntValue) y[i]).val : 0;
      o[i] = B[op == 0 ? p ^ q : op == 1 ? p & q : p | q];
    }
    return new TupleValue(o);
  }
  @TLAPlusOperator(identifier = "BXor", module = "ByteNum", warn = false)
  public static Value xor(Value a, Value b, Value w) { return bits(a, b, w, 0); }
  @TLAPlusOperator(identifier = "BAnd", module = "ByteNum", warn = false)
  public static Value and(Value a, Value b, Value w) { return bits(a, b, w, 1); }
  @TLAPlusOperator(identifier = "BOr", module = "ByteNum", warn = false)
  public static Value or(Value a, Value b, Value w) { return bits(a, b, w, 2); }
  @TLAPlusOperator(identifier = "BNot", module = "ByteNum", warn = false)
  public static Value not(Value a, Value w) {
    Value[] x = elems(a); int n = small(w); Value[] o = new Value[n];
    for (int i = 0; i < n; i++) o[i] = B[255 - (i < x.length ? ((IntValue) x[i]).val : 0)];
    return new TupleValue(o);
  }
  @TLAPlusOperator(identifier = "Shl", module = "ByteNum", warn = false)
  public static Value shl(Value a, Value k, Value w) {
    Value[] x = elems(a); int n = small(w), q = small(k);
    if (n <= 8 && fits(x)) return lout(q > 63 ? 0 : lng(x) << q, n);
    return mod2(big(a).shiftLeft(q), n);
  }
  @TLAPlusOperator(identifier = "Shr", module = "ByteNum", warn = false)
  public static Value shr(Value a, Value k, Value w) {
    Value[] x = elems(a); int n = small(w), q = small(k);
    if (n <= 8 && fits(x)) return lout(q > 63 ? 0 : lng(x) >>> q, n);
    return mod2(big(a).shiftRight(q), n);
  }
  @TLAPlusOperator(identifier = "Rotl", module = "ByteNum", warn = false)
  public static Value rotl(Value a, Value k, Value w) {
    int n = small(w), q = small(k) % (8 * n);
    Value[] x = elems(a);
    if (n <= 8 && x.length == n) { long v = lng(x); return q == 0 ? lout(v, n) : lout(v << q | v >>> (8 * n - q), n); }
    BigInteger v = big(a), m = BigInteger.ONE.shiftLeft(8 * n);
    if (x.length != n) throw new RuntimeException("Rotl: width");
    return mod2(v.shiftLeft(q).or(v.shiftRight(8 * n - q)), n);
  }
  @TLAPlusOperator(identifier = "Bit", module = "ByteNum", warn = false)
  public static Value bit(Value a, Value k) {
    Value[] e = elems(a); int i = small(k), q = i / 8;
    return B[q < e.length ? (((IntValue) e[q]).val >> (i % 8)) & 1 : 0];
  }
  @TLAPlusOperator(identifier = "MulMod", module = "ByteNum", warn = false)
  public static Value mulmod(Value a, Value b, Value m, Value w) {
    return mod2(big(a).multiply(big(b)).mod(big(m)), small(w));
  }
  @TLAPlusOperator(identifier = "PowMod", module = "ByteNum", warn = false)
  public static Value powmod(Value a, Value e, Value m, Value w) {
    return mod2(big(a).modPow(big(e), big(m)), small(w));
  }
}
