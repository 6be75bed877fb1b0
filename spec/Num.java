import java.io.IOException;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC overrides for module Num: decimal arithmetic with 80 significant digits (see Num.tla). */
public class Num {

  static final MathContext MC = new MathContext(80, RoundingMode.HALF_EVEN);

  /** A number as a TLC value. */
  public static final class NumVal extends Value {
    final BigDecimal v;
    NumVal(BigDecimal v) { this.v = v; }
    public byte getKind() { return USERVALUE; }
    public int compareTo(Object o) { return v.compareTo(num((Value) o)); }
    public boolean equals(Object o) {
      return (o instanceof NumVal || o instanceof IntValue) && v.compareTo(num((Value) o)) == 0;
    }
    public boolean member(Value x) { throw new RuntimeException("a number is not a set"); }
    public boolean isFinite() { return true; }
    public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a number"); return ex.value; }
    public Value takeExcept(ValueExcept[] ex) { Value v = this; for (ValueExcept e : ex) v = takeExcept(e); return v; }
    public int size() { return 1; }
    public boolean mutates() { return false; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean assignable(Value x) { return this.equals(x); }
    public void write(IValueOutputStream o) throws IOException { throw new IOException("numbers cannot be spilled to disk"); }
    public long fingerPrint(long fp) { return FP64.Extend(fp, "num:" + v.stripTrailingZeros().toString()); }
    public IValue permute(IMVPerm p) { return this; }
    public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append('"').append(show(v)).append('"'); }
  }

  static String show(BigDecimal v) { return v.round(new MathContext(10)).stripTrailingZeros().toString(); }

  static final HashMap<UniqueString, BigDecimal> literals = new HashMap<>();

  static BigDecimal num(Value x) {
    if (x instanceof NumVal) return ((NumVal) x).v;
    if (x instanceof IntValue) return BigDecimal.valueOf(((IntValue) x).val);
    if (x instanceof StringValue) {
      UniqueString u = ((StringValue) x).val;
      synchronized (literals) {
        BigDecimal b = literals.get(u);
        if (b == null) {
          String s = u.toString();
          int i = s.indexOf('/');
          b = i < 0 ? new BigDecimal(s) : new BigDecimal(s.substring(0, i)).divide(new BigDecimal(s.substring(i + 1)), MC);
          literals.put(u, b);
        }
        return b;
      }
    }
    throw new RuntimeException("not a number: " + x);
  }

  static Value val(BigDecimal b) { return new NumVal(b); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RAdd(Value a, Value b) { return val(num(a).add(num(b), MC)); }
  public static Value RSub(Value a, Value b) { return val(num(a).subtract(num(b), MC)); }
  public static Value RMul(Value a, Value b) { return val(num(a).multiply(num(b), MC)); }
  public static Value RDiv(Value a, Value b) { return val(num(a).divide(num(b), MC)); }
  public static Value RNeg(Value a) { return val(num(a).negate()); }
  public static Value RAbs(Value a) { return val(num(a).abs()); }
  public static Value RSqrt(Value a) { return val(num(a).sqrt(MC)); }
  public static Value RLt(Value a, Value b) { return bool(num(a).compareTo(num(b)) < 0); }
  public static Value RLe(Value a, Value b) { return bool(num(a).compareTo(num(b)) <= 0); }
  public static Value REq(Value a, Value b) { return bool(num(a).compareTo(num(b)) == 0); }
  public static Value RMax(Value a, Value b) { return val(num(a).max(num(b))); }
  public static Value RMin(Value a, Value b) { return val(num(a).min(num(b))); }
  public static Value RCeil(Value a) { return IntValue.gen(num(a).setScale(0, RoundingMode.CEILING).intValueExact()); }
  public static Value RFloor(Value a) { return IntValue.gen(num(a).setScale(0, RoundingMode.FLOOR).intValueExact()); }
  public static Value RIsNum(Value a) { return bool(a instanceof NumVal || a instanceof IntValue); }
  public static Value RStr(Value a) {
    return new StringValue(a instanceof NumVal || a instanceof IntValue ? show(num(a)) : a.toString().replace("\"", ""));
  }

  static final BigDecimal REL = new BigDecimal("1e-12");
  static boolean isNum(Value a) { return a instanceof NumVal || a instanceof IntValue; }
  static boolean alike(Value a, Value b) {
    if (isNum(a) || isNum(b)) {
      if (!isNum(a) || !isNum(b)) return false;
      BigDecimal x = num(a), y = num(b);
      return x.subtract(y).abs().compareTo(REL.multiply(x.abs().max(y.abs()))) <= 0;
    }
    if (a instanceof StringValue || b instanceof StringValue || a instanceof BoolValue || b instanceof BoolValue)
      return a.getKind() == b.getKind() && a.equals(b);
    FcnRcdValue f = (FcnRcdValue) a.toFcnRcd(), g = (FcnRcdValue) b.toFcnRcd();
    if (f == null || g == null) throw new RuntimeException("RSame of " + a + " and " + b);
    Value[] df = f.getDomainAsValues(), dg = g.getDomainAsValues();
    if (df.length != dg.length) return false;
    HashMap<String, Value> m = new HashMap<>();
    for (int i = 0; i < dg.length; i++) m.put(dg[i].toString(), g.values[i]);
    for (int i = 0; i < df.length; i++) {
      Value y = m.get(df[i].toString());
      if (y == null || !alike(f.values[i], y)) return false;
    }
    return true;
  }
  public static Value RSame(Value a, Value b) { return bool(alike(a, b)); }

  // ---- vectors and matrices ------------------------------------------------------------------

  static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static BigDecimal[] vec(Value v) {
    Value[] e = seq(v);
    BigDecimal[] r = new BigDecimal[e.length];
    for (int i = 0; i < e.length; i++) r[i] = num(e[i]);
    return r;
  }
  static BigDecimal[][] mat(Value v) {
    Value[] e = seq(v);
    BigDecimal[][] r = new BigDecimal[e.length][];
    for (int i = 0; i < e.length; i++) r[i] = vec(e[i]);
    return r;
  }
  static Value tup(BigDecimal[] v) {
    Value[] e = new Value[v.length];
    for (int i = 0; i < v.length; i++) e[i] = val(v[i]);
    return new TupleValue(e);
  }
  static Value tup(BigDecimal[][] m) {
    Value[] e = new Value[m.length];
    for (int i = 0; i < m.length; i++) e[i] = tup(m[i]);
    return new TupleValue(e);
  }
  static void same(int a, int b) { if (a != b) throw new RuntimeException("vector sizes differ: " + a + " and " + b); }
  static BigDecimal dot(BigDecimal[] u, BigDecimal[] v) {
    same(u.length, v.length);
    BigDecimal s = BigDecimal.ZERO;
    for (int i = 0; i < u.length; i++)
      if (u[i].signum() != 0 && v[i].signum() != 0) s = s.add(u[i].multiply(v[i], MC), MC);
    return s;
  }

  public static Value RSum(Value v) {
    BigDecimal s = BigDecimal.ZERO;
    for (BigDecimal x : vec(v)) s = s.add(x, MC);
    return val(s);
  }
  public static Value RMaxSeq(Value v) {
    BigDecimal[] x = vec(v);
    BigDecimal s = x[0];
    for (BigDecimal y : x) s = s.max(y);
    return val(s);
  }
  public static Value RDot(Value u, Value v) { return val(dot(vec(u), vec(v))); }
  public static Value VAdd(Value u, Value v) {
    BigDecimal[] a = vec(u), b = vec(v); same(a.length, b.length);
    BigDecimal[] r = new BigDecimal[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i].add(b[i], MC);
    return tup(r);
  }
  public static Value VSub(Value u, Value v) {
    BigDecimal[] a = vec(u), b = vec(v); same(a.length, b.length);
    BigDecimal[] r = new BigDecimal[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i].subtract(b[i], MC);
    return tup(r);
  }
  public static Value VScale(Value s, Value v) {
    BigDecimal a = num(s); BigDecimal[] r = vec(v);
    for (int i = 0; i < r.length; i++) r[i] = a.multiply(r[i], MC);
    return tup(r);
  }
  public static Value VAbs(Value v) {
    BigDecimal[] r = vec(v);
    for (int i = 0; i < r.length; i++) r[i] = r[i].abs();
    return tup(r);
  }
  public static Value VZero(Value n) {
    BigDecimal[] r = new BigDecimal[((IntValue) n).val];
    Arrays.fill(r, BigDecimal.ZERO);
    return tup(r);
  }
  public static Value MVec(Value A, Value v) {
    BigDecimal[][] a = mat(A); BigDecimal[] x = vec(v), r = new BigDecimal[a.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(a[i], x);
    return tup(r);
  }
  static BigDecimal[][] transpose(BigDecimal[][] a) {
    BigDecimal[][] r = new BigDecimal[a.length == 0 ? 0 : a[0].length][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) r[j][i] = a[i][j];
    return r;
  }
  public static Value MT(Value A) { return tup(transpose(mat(A))); }
  public static Value MTVec(Value A, Value v) {
    BigDecimal[][] a = transpose(mat(A)); BigDecimal[] x = vec(v), r = new BigDecimal[a.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(a[i], x);
    return tup(r);
  }
  public static Value MAbsVec(Value A, Value v) {
    BigDecimal[][] a = mat(A); BigDecimal[] x = vec(v), r = new BigDecimal[a.length];
    for (int i = 0; i < r.length; i++) {
      r[i] = BigDecimal.ZERO;
      for (int j = 0; j < x.length; j++) r[i] = r[i].add(a[i][j].multiply(x[j], MC).abs(), MC);
    }
    return tup(r);
  }
  public static Value MMul(Value A, Value B) {
    BigDecimal[][] a = mat(A), b = transpose(mat(B)), r = new BigDecimal[a.length][b.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < b.length; j++) r[i][j] = dot(a[i], b[j]);
    return tup(r);
  }
  public static Value MAdd(Value A, Value B) {
    BigDecimal[][] a = mat(A), b = mat(B); same(a.length, b.length);
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] = a[i][j].add(b[i][j], MC);
    return tup(a);
  }
  public static Value MScale(Value s, Value A) {
    BigDecimal c = num(s); BigDecimal[][] a = mat(A);
    for (BigDecimal[] row : a) for (int j = 0; j < row.length; j++) row[j] = c.multiply(row[j], MC);
    return tup(a);
  }
  public static Value MZero(Value n, Value m) {
    BigDecimal[][] r = new BigDecimal[((IntValue) n).val][((IntValue) m).val];
    for (BigDecimal[] row : r) Arrays.fill(row, BigDecimal.ZERO);
    return tup(r);
  }
  static int[] idx(Value v) {
    Value[] e = seq(v);
    int[] r = new int[e.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) e[i]).val - 1;
    return r;
  }
  public static Value MSub(Value A, Value rs, Value cs) {
    Value[] rows = seq(A); int[] r = idx(rs), c = idx(cs);
    Value[] out = new Value[r.length];
    for (int i = 0; i < r.length; i++) {
      Value[] row = seq(rows[r[i]]), o = new Value[c.length];
      for (int j = 0; j < c.length; j++) o[j] = row[c[j]];
      out[i] = new TupleValue(o);
    }
    return new TupleValue(out);
  }
  public static Value VSel(Value v, Value ix) {
    Value[] e = seq(v); int[] r = idx(ix);
    Value[] o = new Value[r.length];
    for (int i = 0; i < r.length; i++) o[i] = e[r[i]];
    return new TupleValue(o);
  }
  public static Value MAssemble(Value nv, Value parts) {
    int n = ((IntValue) nv).val;
    BigDecimal[][] K = new BigDecimal[n][n];
    for (BigDecimal[] row : K) Arrays.fill(row, BigDecimal.ZERO);
    for (Value p : seq(parts)) {
      Value[] q = seq(p);
      int[] d = idx(q[0]); BigDecimal[][] k = mat(q[1]);
      for (int i = 0; i < d.length; i++) for (int j = 0; j < d.length; j++)
        if (k[i][j].signum() != 0) K[d[i]][d[j]] = K[d[i]][d[j]].add(k[i][j], MC);
    }
    return tup(K);
  }
  public static Value VAssemble(Value nv, Value parts) {
    BigDecimal[] F = new BigDecimal[((IntValue) nv).val];
    Arrays.fill(F, BigDecimal.ZERO);
    for (Value p : seq(parts)) {
      Value[] q = seq(p);
      int[] d = idx(q[0]); BigDecimal[] f = vec(q[1]);
      for (int i = 0; i < d.length; i++) F[d[i]] = F[d[i]].add(f[i], MC);
    }
    return tup(F);
  }

  static final BigDecimal TINY = new BigDecimal("1e-40");

  /** Gaussian elimination on [a|b]; returns the rank (b reduced alongside; solved when the rank is full). */
  static int eliminate(BigDecimal[][] a, BigDecimal[][] b) {
    int n = a.length, m = n == 0 ? 0 : a[0].length, rank = 0;
    BigDecimal[] scale = new BigDecimal[n];
    for (int i = 0; i < n; i++) {
      scale[i] = BigDecimal.ZERO;
      for (BigDecimal x : a[i]) scale[i] = scale[i].max(x.abs());
    }
    for (int c = 0; c < m && rank < n; c++) {
      int piv = -1; BigDecimal best = TINY;
      for (int i = rank; i < n; i++) {
        if (scale[i].signum() == 0) continue;
        BigDecimal rel = a[i][c].abs().divide(scale[i], MC);
        if (rel.compareTo(best) > 0) { best = rel; piv = i; }
      }
      if (piv < 0) continue;
      BigDecimal[] t = a[piv]; a[piv] = a[rank]; a[rank] = t;
      t = b[piv]; b[piv] = b[rank]; b[rank] = t;
      BigDecimal s = scale[piv]; scale[piv] = scale[rank]; scale[rank] = s;
      for (int i = rank + 1; i < n; i++) {
        if (a[i][c].signum() == 0) continue;
        BigDecimal f = a[i][c].divide(a[rank][c], MC);
        for (int j = c; j < m; j++) if (a[rank][j].signum() != 0) a[i][j] = a[i][j].subtract(f.multiply(a[rank][j], MC), MC);
        a[i][c] = BigDecimal.ZERO;
        for (int j = 0; j < b[i].length; j++) b[i][j] = b[i][j].subtract(f.multiply(b[rank][j], MC), MC);
      }
      rank++;
    }
    if (rank == n && n == m)
      for (int i = n - 1; i >= 0; i--)
        for (int k = 0; k < b[i].length; k++) {
          BigDecimal s = b[i][k];
          for (int j = i + 1; j < n; j++) if (a[i][j].signum() != 0) s = s.subtract(a[i][j].multiply(b[j][k], MC), MC);
          b[i][k] = s.divide(a[i][i], MC);
        }
    return rank;
  }
  static Value solved(boolean ok, Value x) {
    return new RecordValue(new UniqueString[] { UniqueString.uniqueStringOf("ok"), UniqueString.uniqueStringOf("x") },
                           new Value[] { bool(ok), ok ? x : new TupleValue(new Value[0]) }, false);
  }
  public static Value RSolve(Value A, Value b) {
    BigDecimal[][] a = mat(A); BigDecimal[] v = vec(b); same(a.length, v.length);
    BigDecimal[][] B = new BigDecimal[v.length][];
    for (int i = 0; i < v.length; i++) B[i] = new BigDecimal[] { v[i] };
    boolean ok = eliminate(a, B) == a.length;
    for (int i = 0; i < v.length; i++) v[i] = B[i][0];
    return solved(ok, tup(v));
  }
  public static Value MSolve(Value A, Value B) {
    BigDecimal[][] a = mat(A), b = mat(B); same(a.length, b.length);
    boolean ok = eliminate(a, b) == a.length;
    return solved(ok, tup(b));
  }
  public static Value RRank(Value A) {
    BigDecimal[][] a = mat(A), b = new BigDecimal[a.length][0];
    return IntValue.gen(eliminate(a, b));
  }

  public static Value IsNull(Value v) { return bool(v instanceof StringValue && ((StringValue) v).val.toString().equals("null")); }

  public static Value Eager(Value v) {
    if (v instanceof NumVal || v instanceof IntValue || v instanceof StringValue || v instanceof BoolValue || v instanceof ModelValue) return v;
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems, o = new Value[e.length];
      for (int i = 0; i < e.length; i++) o[i] = Eager(e[i]);
      return new TupleValue(o);
    }
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v;
      Value[] o = new Value[r.values.length];
      for (int i = 0; i < o.length; i++) o[i] = Eager(r.values[i]);
      return new RecordValue(r.names, o, r.isNormalized());
    }
    Value f = v.toFcnRcd();
    if (f instanceof FcnRcdValue) {
      Value t = f.toTuple();
      if (t instanceof TupleValue) return Eager(t);
      FcnRcdValue g = (FcnRcdValue) f;
      Value[] o = new Value[g.values.length];
      for (int i = 0; i < o.length; i++) o[i] = Eager(g.values[i]);
      return g.intv != null ? new FcnRcdValue(g.intv, o) : new FcnRcdValue(g.domain, o, g.isNormalized());
    }
    v.deepNormalize();
    return v;
  }

  // ---- JSON ----------------------------------------------------------------------------------

  public static Value RLoad(Value file) {
    try {
      String s = new String(Files.readAllBytes(Paths.get(((StringValue) file).val.toString())), StandardCharsets.UTF_8);
      Parser p = new Parser(s);
      return p.value();
    } catch (IOException e) { throw new RuntimeException(e); }
  }
  static final class Parser {
    final String s; int i = 0;
    Parser(String s) { this.s = s; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value value() {
      ws();
      char c = s.charAt(i);
      if (c == '{') {
        i++; ArrayList<UniqueString> ks = new ArrayList<>(); ArrayList<Value> vs = new ArrayList<>();
        ws();
        if (s.charAt(i) == '}') { i++; return new TupleValue(new Value[0]); }
        while (true) {
          ws(); ks.add(UniqueString.uniqueStringOf(str())); ws(); i++; vs.add(value()); ws();
          if (s.charAt(i++) == '}') break;
        }
        RecordValue r = new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
        r.normalize();
        return r;
      }
      if (c == '[') {
        i++; ArrayList<Value> vs = new ArrayList<>();
        ws();
        if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
        while (true) { vs.add(value()); ws(); if (s.charAt(i++) == ']') break; }
        return new TupleValue(vs.toArray(new Value[0]));
      }
      if (c == '"') return new StringValue(str());
      if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
      if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
      if (s.startsWith("null", i)) { i += 4; return new StringValue("null"); }
      int j = i;
      while (j < s.length() && "+-.0123456789eE".indexOf(s.charAt(j)) >= 0) j++;
      String t = s.substring(i, j); i = j;
      if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0) return t.length() < 10 ? IntValue.gen(Integer.parseInt(t)) : val(new BigDecimal(t));
      return val(new BigDecimal(Double.parseDouble(t)));
    }
    String str() {
      StringBuilder b = new StringBuilder(); i++;
      while (true) {
        char c = s.charAt(i++);
        if (c == '"') return b.toString();
        if (c == '\\') {
          c = s.charAt(i++);
          if (c == 'n') c = '\n'; else if (c == 't') c = '\t'; else if (c == 'r') c = '\r';
          else if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; }
        }
        b.append(c);
      }
    }
  }
}
