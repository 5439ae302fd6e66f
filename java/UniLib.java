// Fast implementations of operators of spec/UniLib.tla; UniCheck compares with spec/UniPure.tla.
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

public class UniLib {
  static final Q.R Z = new Q.R(Q.ZERO, Q.ONE);
  static Q.R[] in(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    Q.R[] r = new Q.R[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = Q.p(t.elems[i]);
    return r;
  }
  static Value out(Q.R[] p) {
    Value[] t = new Value[p.length];
    for (int i = 0; i < t.length; i++) t[i] = Q.mk(p[i]);
    return new TupleValue(t);
  }
  static boolean zero(Q.R c) { return c.n.signum() == 0; }
  static Q.R[] trim(Q.R[] p) {
    int n = p.length;
    while (n > 0 && zero(p[n - 1])) n--;
    return n == p.length ? p : Arrays.copyOf(p, n);
  }
  static Q.R[] add(Q.R[] p, Q.R[] q) {
    Q.R[] r = new Q.R[Math.max(p.length, q.length)];
    for (int i = 0; i < r.length; i++) r[i] = i >= p.length ? q[i] : i >= q.length ? p[i] : Q.add(p[i], q[i]);
    return trim(r);
  }
  static Q.R[] scale(Q.R c, Q.R[] p) {
    if (zero(c)) return new Q.R[0];
    Q.R[] r = new Q.R[p.length];
    for (int i = 0; i < r.length; i++) r[i] = Q.mul(c, p[i]);
    return r;
  }
  static Q.R[] mul(Q.R[] p, Q.R[] q) {
    if (p.length == 0 || q.length == 0) return new Q.R[0];
    Q.R[] r = new Q.R[p.length + q.length - 1];
    Arrays.fill(r, Z);
    for (int i = 0; i < p.length; i++) if (!zero(p[i])) for (int j = 0; j < q.length; j++) r[i + j] = Q.add(r[i + j], Q.mul(p[i], q[j]));
    return trim(r);
  }
  static Q.R[][] divrem(Q.R[] a, Q.R[] b) {
    if (b.length == 0) throw new ArithmeticException("division by zero in specification");
    Q.R[] r = a.clone();
    int n = a.length, m = b.length;
    if (n < m) return new Q.R[][] {new Q.R[0], a};
    Q.R[] q = new Q.R[n - m + 1];
    for (int k = n - m; k >= 0; k--) {
      q[k] = Q.div(r[k + m - 1], b[m - 1]);
      if (!zero(q[k])) for (int j = 0; j < m; j++) r[k + j] = Q.add(r[k + j], Q.neg(Q.mul(q[k], b[j])));
    }
    return new Q.R[][] {trim(q), trim(r)};
  }
  // A positive multiple with coprime integer coefficients.
  static Q.R[] prim(Q.R[] p) {
    if (p.length == 0) return p;
    BigInteger l = Q.ONE, g = Q.ZERO;
    for (Q.R c : p) l = l.divide(l.gcd(c.d)).multiply(c.d);
    BigInteger[] z = new BigInteger[p.length];
    for (int i = 0; i < z.length; i++) { z[i] = p[i].n.multiply(l.divide(p[i].d)); g = g.gcd(z[i]); }
    Q.R[] r = new Q.R[p.length];
    for (int i = 0; i < r.length; i++) r[i] = new Q.R(z[i].divide(g), Q.ONE);
    return r;
  }
  static Q.R[] gcd(Q.R[] a, Q.R[] b) {
    while (b.length > 0) { Q.R[] r = prim(divrem(a, b)[1]); a = b; b = r; }
    return a.length == 0 ? a : scale(Q.div(new Q.R(Q.ONE, Q.ONE), a[a.length - 1]), a);
  }
  static Q.R eval(Q.R[] p, Q.R x) {
    Q.R r = Z;
    for (int i = p.length - 1; i >= 0; i--) r = Q.add(p[i], Q.mul(x, r));
    return r;
  }
  static int sgn(Q.R[] p, Value v) {
    String s = ((StringValue) v).val.toString();
    if (p.length == 0) return 0;
    int l = p[p.length - 1].n.signum();
    if (s.equals("+oo")) return l;
    if (s.equals("-oo")) return p.length % 2 == 1 ? l : -l;
    return eval(p, Q.p(s)).n.signum();
  }
  static int variations(List<Q.R[]> s, Value v) {
    int last = 0, n = 0;
    for (Q.R[] p : s) {
      int x = sgn(p, v);
      if (x == 0) continue;
      if (last != 0 && x != last) n++;
      last = x;
    }
    return n;
  }
  public static Value UAdd(Value p, Value q) { return out(add(in(p), in(q))); }
  public static Value UScale(Value c, Value p) { return out(scale(Q.p(c), in(p))); }
  public static Value UMul(Value p, Value q) { return out(mul(in(p), in(q))); }
  public static Value UDivRem(Value a, Value b) { Q.R[][] r = divrem(in(a), in(b)); return new TupleValue(new Value[] {out(r[0]), out(r[1])}); }
  public static Value UGcd(Value a, Value b) { return out(gcd(in(a), in(b))); }
  public static Value UEval(Value p, Value x) { return Q.mk(eval(in(p), Q.p(x))); }
  public static Value CountBetween(Value vp, Value a, Value b) {
    Q.R[] p = in(vp);
    List<Q.R[]> s = new ArrayList<>();
    s.add(prim(p));
    if (p.length > 1) {
      Q.R[] d = new Q.R[p.length - 1];
      for (int i = 0; i < d.length; i++) d[i] = Q.mul(new Q.R(BigInteger.valueOf(i + 1), Q.ONE), p[i + 1]);
      Q.R[] x = s.get(0), y = prim(d);
      while (y.length > 0) {
        s.add(y);
        Q.R[] r = prim(scale(new Q.R(Q.ONE.negate(), Q.ONE), divrem(x, y)[1]));
        x = y;
        y = r;
      }
    }
    return IntValue.gen(variations(s, a) - variations(s, b));
  }
}
