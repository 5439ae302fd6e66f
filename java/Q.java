// Fast implementations of the operators of spec/Q.tla (TLC loads this class because it
// carries the module's name). The definitions are in spec/QPure.tla; QCheck compares.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Q {
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

  static final class R {
    final BigInteger n, d;
    R(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }
  static R p(String s) {
    int i = s.indexOf('/');
    if (i < 0) return new R(new BigInteger(s), ONE);
    return new R(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
  }
  static R p(Value v) { return p(((StringValue) v).val.toString()); }
  static R norm(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new ArithmeticException("division by zero in specification");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    return new R(n, d);
  }
  static String s(R r) { return r.d.equals(ONE) ? r.n.toString() : r.n + "/" + r.d; }
  static Value mk(R r) { return new StringValue(s(r)); }
  static Value z(BigInteger n) { return new StringValue(n.toString()); }
  static Value i(int n) { return IntValue.gen(n); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static R add(R a, R b) {
    if (a.d.equals(ONE) && b.d.equals(ONE)) return new R(a.n.add(b.n), ONE);
    return norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static R neg(R a) { return new R(a.n.negate(), a.d); }
  static R mul(R a, R b) {
    if (a.d.equals(ONE) && b.d.equals(ONE)) return new R(a.n.multiply(b.n), ONE);
    return norm(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static R div(R a, R b) { return norm(a.n.multiply(b.d), a.d.multiply(b.n)); }
  static int cmp(R a, R b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
  static BigInteger fl(BigInteger a, BigInteger b) {
    BigInteger[] q = a.divideAndRemainder(b);
    return (q[1].signum() != 0 && (q[1].signum() != b.signum())) ? q[0].subtract(ONE) : q[0];
  }

  public static Value QAdd(Value a, Value b) { return mk(add(p(a), p(b))); }
  public static Value QSub(Value a, Value b) { return mk(add(p(a), neg(p(b)))); }
  public static Value QMul(Value a, Value b) { return mk(mul(p(a), p(b))); }
  public static Value QDiv(Value a, Value b) { return mk(div(p(a), p(b))); }
  public static Value QNeg(Value a) { return mk(neg(p(a))); }
  public static Value QAbs(Value a) { R x = p(a); return mk(new R(x.n.abs(), x.d)); }
  public static Value QSgn(Value a) { return i(p(a).n.signum()); }
  public static Value QCmp(Value a, Value b) { return i(cmp(p(a), p(b))); }
  public static Value QLt(Value a, Value b) { return b(cmp(p(a), p(b)) < 0); }
  public static Value QLe(Value a, Value b) { return b(cmp(p(a), p(b)) <= 0); }
  public static Value QNum(Value a) { return z(p(a).n); }
  public static Value QDen(Value a) { return z(p(a).d); }
  public static Value QIsInt(Value a) { return b(p(a).d.equals(ONE)); }
  public static Value QFloor(Value a) { R x = p(a); return z(fl(x.n, x.d)); }
  public static Value QCeil(Value a) { R x = p(a); return z(fl(x.n.negate(), x.d).negate()); }
  public static Value QTrunc(Value a) { R x = p(a); return z(x.n.divide(x.d)); }
  static BigInteger zi(Value a) {
    R x = p(a);
    if (!x.d.equals(ONE)) throw new ArithmeticException("not an integer: " + s(x));
    return x.n;
  }
  public static Value ZQuoT(Value a, Value b) { return z(zi(a).divide(zi(b))); }
  public static Value ZRemT(Value a, Value b) { return z(zi(a).remainder(zi(b))); }
  public static Value ZQuoF(Value a, Value b) { return z(fl(zi(a), zi(b))); }
  public static Value ZModF(Value a, Value b) { BigInteger x = zi(a), y = zi(b); return z(x.subtract(y.multiply(fl(x, y)))); }
  public static Value ZGcd(Value a, Value b) { return z(zi(a).gcd(zi(b))); }
  public static Value QPow(Value a, Value n) { R x = p(a); int k = ((IntValue) n).val; return mk(new R(x.n.pow(k), x.d.pow(k))); }
  public static Value QOfInt(Value n) { return new StringValue(Integer.toString(((IntValue) n).val)); }
  public static Value QToInt(Value a) { return i(zi(a).intValueExact()); }
  public static Value ZAnd(Value a, Value b) { return z(zi(a).and(zi(b))); }
  public static Value ZOr(Value a, Value b) { return z(zi(a).or(zi(b))); }
  public static Value ZXor(Value a, Value b) { return z(zi(a).xor(zi(b))); }
}
