// Fast implementations of operators of spec/Poly.tla; definitions in spec/PolyPure.tla.
import java.util.*;
import tlc2.value.impl.*;

public class Poly {
  static final class M {
    final int[] e;
    M(int[] e) { this.e = e; }
    @Override public int hashCode() { return Arrays.hashCode(e); }
    @Override public boolean equals(Object o) { return Arrays.equals(e, ((M) o).e); }
  }
  static M mon(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    int[] e = new int[t.elems.length];
    for (int i = 0; i < e.length; i++) e[i] = ((IntValue) t.elems[i]).val;
    return new M(e);
  }
  static Map<M, Q.R> in(Value v) {
    FcnRcdValue f = (FcnRcdValue) v.toFcnRcd();
    f.normalize();
    Map<M, Q.R> r = new HashMap<>();
    Value[] dom = f.getDomainAsValues();
    for (int i = 0; i < dom.length; i++) r.put(mon(dom[i]), Q.p(f.values[i]));
    return r;
  }
  static Value out(Map<M, Q.R> m) {
    List<Value> d = new ArrayList<>(), c = new ArrayList<>();
    for (Map.Entry<M, Q.R> e : m.entrySet()) {
      if (e.getValue().n.signum() == 0) continue;
      int[] x = e.getKey().e;
      Value[] t = new Value[x.length];
      for (int i = 0; i < x.length; i++) t[i] = IntValue.gen(x[i]);
      d.add(new TupleValue(t));
      c.add(Q.mk(e.getValue()));
    }
    if (d.isEmpty()) return new TupleValue(new Value[0]);
    FcnRcdValue f = new FcnRcdValue(d.toArray(new Value[0]), c.toArray(new Value[0]), false);
    f.normalize();
    return f;
  }
  static void acc(Map<M, Q.R> m, M k, Q.R c) {
    Q.R o = m.get(k);
    m.put(k, o == null ? c : Q.add(o, c));
  }
  static Map<M, Q.R> mul(Map<M, Q.R> a, Map<M, Q.R> b) {
    Map<M, Q.R> r = new HashMap<>();
    for (Map.Entry<M, Q.R> x : a.entrySet()) {
      if (x.getValue().n.signum() == 0) continue;
      for (Map.Entry<M, Q.R> y : b.entrySet()) {
        int[] e = x.getKey().e.clone();
        int[] f = y.getKey().e;
        for (int i = 0; i < e.length; i++) e[i] += f[i];
        acc(r, new M(e), Q.mul(x.getValue(), y.getValue()));
      }
    }
    return r;
  }
  static Map<M, Q.R> one(int nv) {
    Map<M, Q.R> r = new HashMap<>();
    r.put(new M(new int[nv]), Q.p("1"));
    return r;
  }
  static Map<M, Q.R> pow(int nv, Map<M, Q.R> a, int n) {
    Map<M, Q.R> r = one(nv);
    for (int i = 0; i < n; i++) r = mul(r, a);
    return r;
  }
  public static Value PAdd(Value p, Value q) {
    Map<M, Q.R> r = in(p);
    for (Map.Entry<M, Q.R> y : in(q).entrySet()) acc(r, y.getKey(), y.getValue());
    return out(r);
  }
  public static Value PSub(Value p, Value q) {
    Map<M, Q.R> r = in(p);
    for (Map.Entry<M, Q.R> y : in(q).entrySet()) acc(r, y.getKey(), Q.neg(y.getValue()));
    return out(r);
  }
  public static Value PScale(Value c, Value p) {
    Q.R k = Q.p(c);
    Map<M, Q.R> r = in(p);
    r.replaceAll((m, x) -> Q.mul(k, x));
    return out(r);
  }
  public static Value PMul(Value p, Value q) { return out(mul(in(p), in(q))); }
  public static Value PPow(Value nv, Value p, Value n) {
    return out(pow(((IntValue) nv).val, in(p), ((IntValue) n).val));
  }
  public static Value PSubst(Value nv, Value p, Value i, Value q) {
    int n = ((IntValue) nv).val, k = ((IntValue) i).val - 1;
    Map<M, Q.R> a = in(q), r = new HashMap<>();
    Map<Integer, Map<M, Q.R>> pows = new HashMap<>();
    for (Map.Entry<M, Q.R> x : in(p).entrySet()) {
      int[] e = x.getKey().e.clone();
      int d = e[k];
      e[k] = 0;
      Map<M, Q.R> pw = pows.computeIfAbsent(d, dd -> pow(n, a, dd));
      Map<M, Q.R> t = new HashMap<>();
      t.put(new M(e), x.getValue());
      for (Map.Entry<M, Q.R> y : mul(t, pw).entrySet()) acc(r, y.getKey(), y.getValue());
    }
    return out(r);
  }
}
