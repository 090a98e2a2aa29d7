// TLC evaluation of module F64: IEEE double arithmetic for the operators declared there.
// Integers stay TLC integers (checked arithmetic); anything else is a double.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import tlc2.value.IMVPerm;
import tlc2.overrides.TLAPlusOperator;
import tlc2.overrides.Evaluation;

public class F64Impl implements tlc2.overrides.ITLCOverrides {
  public Class[] get() { return new Class[] { F64Impl.class }; }

  static double d(Value v) {
    if (v instanceof F64Value) return ((F64Value) v).v;
    if (v instanceof IntValue) return ((IntValue) v).val;
    throw new RuntimeException("F64: not a number: " + v);
  }
  static int n(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    throw new RuntimeException("F64: not an integer: " + v);
  }
  static boolean ii(Value a, Value b) { return a instanceof IntValue && b instanceof IntValue; }
  static Value r(double x) { return new F64Value(x); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] el(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("F64: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }

  @TLAPlusOperator(identifier = "+", module = "F64", warn = false)
  public static Value plus(Value a, Value b) { return ii(a, b) ? IntValue.gen(Math.addExact(n(a), n(b))) : r(d(a) + d(b)); }
  @TLAPlusOperator(identifier = "-", module = "F64", warn = false)
  public static Value minus(Value a, Value b) { return ii(a, b) ? IntValue.gen(Math.subtractExact(n(a), n(b))) : r(d(a) - d(b)); }
  @TLAPlusOperator(identifier = "-.", module = "F64", warn = false)
  public static Value neg(Value a) { return a instanceof IntValue ? IntValue.gen(Math.negateExact(n(a))) : r(-d(a)); }
  @TLAPlusOperator(identifier = "*", module = "F64", warn = false)
  public static Value times(Value a, Value b) { return ii(a, b) ? IntValue.gen(Math.multiplyExact(n(a), n(b))) : r(d(a) * d(b)); }
  @TLAPlusOperator(identifier = "/", module = "F64", warn = false)
  public static Value div(Value a, Value b) { return r(d(a) / d(b)); }
  @TLAPlusOperator(identifier = "\\div", module = "F64", warn = false)
  public static Value idiv(Value a, Value b) { return IntValue.gen(Math.floorDiv(n(a), n(b))); }
  @TLAPlusOperator(identifier = "%", module = "F64", warn = false)
  public static Value mod(Value a, Value b) { return IntValue.gen(Math.floorMod(n(a), n(b))); }
  @TLAPlusOperator(identifier = "<", module = "F64", warn = false)
  public static Value lt(Value a, Value b) { return b(d(a) < d(b)); }
  @TLAPlusOperator(identifier = ">", module = "F64", warn = false)
  public static Value gt(Value a, Value b) { return b(d(a) > d(b)); }
  @TLAPlusOperator(identifier = "\\leq", module = "F64", warn = false)
  public static Value le(Value a, Value b) { return b(d(a) <= d(b)); }
  @TLAPlusOperator(identifier = "\\geq", module = "F64", warn = false)
  public static Value ge(Value a, Value b) { return b(d(a) >= d(b)); }
  @TLAPlusOperator(identifier = "..", module = "F64", warn = false)
  public static Value range(Value a, Value b) { return new IntervalValue(n(a), n(b)); }

  @TLAPlusOperator(identifier = "Eq", module = "F64", warn = false)
  public static Value eq(Value a, Value b) { double x = d(a), y = d(b); return b(x == y || (x != x && y != y)); }
  @TLAPlusOperator(identifier = "IsNaN", module = "F64", warn = false)
  public static Value isnan(Value a) { return b(Double.isNaN(d(a))); }
  @TLAPlusOperator(identifier = "IsFinite", module = "F64", warn = false)
  public static Value isfin(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
  @TLAPlusOperator(identifier = "IsNum", module = "F64", warn = false)
  public static Value isnum(Value a) { return b(a instanceof F64Value || a instanceof IntValue); }
  @TLAPlusOperator(identifier = "Abs", module = "F64", warn = false)
  public static Value abs(Value a) { return a instanceof IntValue ? IntValue.gen(Math.abs(n(a))) : r(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "Flt", module = "F64", warn = false)
  public static Value flt(Value a) { return r(d(a)); }
  @TLAPlusOperator(identifier = "Floor", module = "F64", warn = false)
  public static Value floor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  @TLAPlusOperator(identifier = "Log", module = "F64", warn = false)
  public static Value log(Value a) { return r(Math.log(d(a))); }
  @TLAPlusOperator(identifier = "Exp", module = "F64", warn = false)
  public static Value exp(Value a) { return r(Math.exp(d(a))); }
  @TLAPlusOperator(identifier = "Sqrt", module = "F64", warn = false)
  public static Value sqrt(Value a) { return r(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "Sin", module = "F64", warn = false)
  public static Value sin(Value a) { return r(Math.sin(d(a))); }
  @TLAPlusOperator(identifier = "Cos", module = "F64", warn = false)
  public static Value cos(Value a) { return r(Math.cos(d(a))); }
  @TLAPlusOperator(identifier = "Pow", module = "F64", warn = false)
  public static Value pow(Value a, Value b) { return r(Math.pow(d(a), d(b))); }
  @TLAPlusOperator(identifier = "IPow", module = "F64", warn = false)
  public static Value ipow(Value a, Value b) {
    int e = n(b); double x = d(a), y = 1; boolean inv = e < 0; if (inv) e = -e;
    while (e > 0) { if ((e & 1) != 0) y *= x; x *= x; e >>= 1; }
    return r(inv ? 1 / y : y);
  }
  @TLAPlusOperator(identifier = "Min2", module = "F64", warn = false)
  public static Value min2(Value a, Value b) { return d(a) < d(b) ? a : b; }
  @TLAPlusOperator(identifier = "Max2", module = "F64", warn = false)
  public static Value max2(Value a, Value b) { return d(a) > d(b) ? a : b; }

  @TLAPlusOperator(identifier = "Tup", module = "F64", warn = false)
  public static Value tup(Value s) { return new TupleValue(el(s)); }
  @TLAPlusOperator(identifier = "Sum", module = "F64", warn = false)
  public static Value sum(Value s) {
    boolean allInt = true; for (Value e : el(s)) if (!(e instanceof IntValue)) allInt = false;
    if (allInt) { int t = 0; for (Value e : el(s)) t = Math.addExact(t, n(e)); return IntValue.gen(t); }
    double x = 0; for (Value e : el(s)) x += d(e); return r(x);
  }
  @TLAPlusOperator(identifier = "SumAbs", module = "F64", warn = false)
  public static Value sumAbs(Value s) { double x = 0; for (Value e : el(s)) x += Math.abs(d(e)); return r(x); }
  @TLAPlusOperator(identifier = "Dot", module = "F64", warn = false)
  public static Value dot(Value s, Value t) {
    Value[] a = el(s), c = el(t); if (a.length != c.length) throw new RuntimeException("F64: Dot of different lengths");
    double x = 0; for (int i = 0; i < a.length; i++) x += d(a[i]) * d(c[i]); return r(x);
  }
  @TLAPlusOperator(identifier = "MaxAbs", module = "F64", warn = false)
  public static Value maxAbs(Value s) { double x = 0; for (Value e : el(s)) { double y = Math.abs(d(e)); if (y != y) return r(y); if (y > x) x = y; } return r(x); }
  // sum of vectors (sequence of sequences of equal length; empty ones count as zero)
  @TLAPlusOperator(identifier = "VSum", module = "F64", warn = false)
  public static Value vsum(Value s) {
    double[] x = null;
    for (Value row : el(s)) {
      Value[] c = el(row); if (c.length == 0) continue;
      if (x == null) x = new double[c.length]; else if (x.length != c.length) throw new RuntimeException("F64: VSum of different lengths");
      for (int i = 0; i < x.length; i++) x[i] += d(c[i]);
    }
    if (x == null) return new TupleValue(new Value[0]);
    Value[] o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = r(x[i]); return new TupleValue(o);
  }
  @TLAPlusOperator(identifier = "VScale", module = "F64", warn = false)
  public static Value vscale(Value a, Value s) {
    double f = d(a); Value[] c = el(s); Value[] o = new Value[c.length];
    for (int i = 0; i < c.length; i++) o[i] = r(f * d(c[i])); return new TupleValue(o);
  }
  // index of the last element of the increasing sequence s that is <= x (0 if none)
  @TLAPlusOperator(identifier = "Rank", module = "F64", warn = false)
  public static Value rank(Value s, Value x) {
    Value[] c = el(s); double y = d(x); int lo = 0, hi = c.length;
    while (lo < hi) { int m = (lo + hi) >>> 1; if (d(c[m]) <= y) lo = m + 1; else hi = m; }
    return IntValue.gen(lo);
  }
  @TLAPlusOperator(identifier = "D", module = "F64", warn = false)
  public static Value dec(Value s) { return r(Double.parseDouble(((StringValue) s).val.toString())); }

  // exact text form of a number or of a flat sequence of numbers: 16 hex digits per double, separated by blanks
  static void hex(StringBuilder o, Value v) {
    if (v instanceof F64Value || v instanceof IntValue) {
      if (o.length() > 0) o.append(' ');
      o.append(String.format("%016x", Double.doubleToRawLongBits(d(v))));
    } else for (Value e : el(v)) hex(o, e);
  }
  @TLAPlusOperator(identifier = "Hex", module = "F64", warn = false)
  public static Value hex(Value v) { StringBuilder o = new StringBuilder(); hex(o, v); return new StringValue(o.toString()); }
  @TLAPlusOperator(identifier = "UnHex", module = "F64", warn = false)
  public static Value unhex(Value v) {
    String s = ((StringValue) v).val.toString().trim();
    if (s.isEmpty()) return new TupleValue(new Value[0]);
    String[] p = s.split(" +"); Value[] o = new Value[p.length];
    for (int i = 0; i < p.length; i++) o[i] = r(Double.longBitsToDouble(Long.parseUnsignedLong(p[i], 16)));
    return new TupleValue(o);
  }

  // ---- JSON with exact doubles: {"#": hex} a number, {"$": "hex hex ..."} a sequence of numbers ----
  static void out(StringBuilder o, Value v) {
    if (v instanceof F64Value) { o.append("{\"#\":\""); hex1(o, d(v)); o.append("\"}"); return; }
    if (v instanceof IntValue) { o.append(((IntValue) v).val); return; }
    if (v instanceof BoolValue) { o.append(((BoolValue) v).val); return; }
    if (v instanceof StringValue) { str(o, ((StringValue) v).val.toString()); return; }
    Value rec = v instanceof TupleValue ? null : v.toRcd();
    if (rec != null && ((RecordValue) rec).names.length > 0) {
      RecordValue rv = (RecordValue) rec; rv.normalize(); o.append('{');
      for (int i = 0; i < rv.names.length; i++) { if (i > 0) o.append(','); str(o, rv.names[i].toString()); o.append(':'); out(o, rv.values[i]); }
      o.append('}'); return;
    }
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("F64: cannot write " + v);
    Value[] e = ((TupleValue) t).elems;
    boolean num = e.length > 0; for (Value x : e) num &= x instanceof F64Value;
    if (num) { o.append("{\"$\":\""); for (int i = 0; i < e.length; i++) { if (i > 0) o.append(' '); hex1(o, d(e[i])); } o.append("\"}"); return; }
    o.append('['); for (int i = 0; i < e.length; i++) { if (i > 0) o.append(','); out(o, e[i]); } o.append(']');
  }
  static void hex1(StringBuilder o, double x) {
    String h = Long.toHexString(Double.doubleToRawLongBits(x)); for (int i = h.length(); i < 16; i++) o.append('0'); o.append(h);
  }
  static void str(StringBuilder o, String s) {
    o.append('"'); for (char c : s.toCharArray()) { if (c == '"' || c == '\\') o.append('\\').append(c); else if (c < ' ') o.append(String.format("\\u%04x", (int) c)); else o.append(c); } o.append('"');
  }
  static class In {
    final String s; int p = 0; In(String s) { this.s = s; }
    void ws() { while (p < s.length() && s.charAt(p) <= ' ') p++; }
    char pk() { ws(); return s.charAt(p); }
    void ex(char c) { if (pk() != c) throw new RuntimeException("F64: JSON: expected " + c + " at " + p); p++; }
    String str() {
      ex('"'); int q = s.indexOf('"', p);
      String t = s.substring(p, q);
      if (t.indexOf('\\') < 0) { p = q + 1; return t; }
      StringBuilder o = new StringBuilder();
      while (s.charAt(p) != '"') {
        char c = s.charAt(p++);
        if (c == '\\') { c = s.charAt(p++); if (c == 'u') { c = (char) Integer.parseInt(s.substring(p, p + 4), 16); p += 4; } else if (c == 'n') c = '\n'; else if (c == 't') c = '\t'; }
        o.append(c);
      }
      p++; return o.toString();
    }
    static Value num(String h) { return r(Double.longBitsToDouble(Long.parseUnsignedLong(h, 16))); }
    Value val() {
      char c = pk();
      if (c == '{') {
        p++; java.util.ArrayList<String> ks = new java.util.ArrayList<>(); java.util.ArrayList<Value> vs = new java.util.ArrayList<>();
        if (pk() == '}') { p++; return new RecordValue(new util.UniqueString[0], new Value[0], true); }
        while (true) {
          String k = str(); ex(':');
          if (k.equals("#")) { Value v = num(str()); ex('}'); return v; }
          if (k.equals("$")) { Value v = unhex(new StringValue(str())); ex('}'); return v; }
          ks.add(k); vs.add(val());
          if (pk() == ',') { p++; continue; } ex('}'); break;
        }
        util.UniqueString[] n = new util.UniqueString[ks.size()]; for (int i = 0; i < n.length; i++) n[i] = util.UniqueString.uniqueStringOf(ks.get(i));
        RecordValue rv = new RecordValue(n, vs.toArray(new Value[0]), false); rv.normalize(); return rv;
      }
      if (c == '[') {
        p++; java.util.ArrayList<Value> vs = new java.util.ArrayList<>();
        if (pk() == ']') { p++; return new TupleValue(new Value[0]); }
        while (true) { vs.add(val()); if (pk() == ',') { p++; continue; } ex(']'); break; }
        return new TupleValue(vs.toArray(new Value[0]));
      }
      if (c == '"') return new StringValue(str());
      if (s.startsWith("true", p)) { p += 4; return BoolValue.ValTrue; }
      if (s.startsWith("false", p)) { p += 5; return BoolValue.ValFalse; }
      int q = p; if (s.charAt(p) == '-') p++; while (p < s.length() && Character.isDigit(s.charAt(p))) p++;
      return IntValue.gen(Integer.parseInt(s.substring(q, p)));
    }
  }
  static final java.util.concurrent.ConcurrentHashMap<String, Value> files = new java.util.concurrent.ConcurrentHashMap<>();
  @TLAPlusOperator(identifier = "JRead", module = "F64", warn = false)
  public static Value jread(Value f) {
    String n = ((StringValue) f).val.toString();
    return files.computeIfAbsent(n, k -> { try { return new In(new String(java.nio.file.Files.readAllBytes(java.nio.file.Paths.get(k)), "UTF-8")).val(); } catch (java.io.IOException e) { throw new RuntimeException(e); } });
  }
  @TLAPlusOperator(identifier = "JWrite", module = "F64", warn = false)
  public static Value jwrite(Value f, Value v) {
    StringBuilder o = new StringBuilder(); out(o, v); o.append('\n');
    try { java.nio.file.Files.write(java.nio.file.Paths.get(((StringValue) f).val.toString()), o.toString().getBytes("UTF-8"),
          java.nio.file.StandardOpenOption.CREATE, java.nio.file.StandardOpenOption.APPEND); } catch (java.io.IOException e) { throw new RuntimeException(e); }
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "JText", module = "F64", warn = false)
  public static Value jtext(Value v) { StringBuilder o = new StringBuilder(); out(o, v); return new StringValue(o.toString()); }
  // value of an expression that the key determines, evaluated once per key
  static final java.util.concurrent.ConcurrentHashMap<String, Value> once = new java.util.concurrent.ConcurrentHashMap<>();
  @Evaluation(definition = "Once", module = "F64", warn = false, silent = true)
  public static Value once(final tlc2.tool.impl.Tool tool, final tla2sany.semantic.ExprOrOpArgNode[] args, final tlc2.util.Context c,
      final tlc2.tool.TLCState s0, final tlc2.tool.TLCState s1, final int control, final tlc2.tool.coverage.CostModel cm) {
    String k = ((StringValue) tool.eval(args[0], c, s0, s1, control, cm)).val.toString();
    Value v = once.get(k);
    if (v == null) { v = (Value) tool.eval(args[1], c, s0, s1, control, cm); v.deepNormalize(); if (once.size() > 200000) once.clear(); once.put(k, v); }
    return v;
  }
  // environment variable, "" if unset
  @TLAPlusOperator(identifier = "Env", module = "F64", warn = false)
  public static Value env(Value v) { String s = System.getenv(((StringValue) v).val.toString()); return new StringValue(s == null ? "" : s); }
  @TLAPlusOperator(identifier = "Int", module = "F64", warn = false)
  public static Value toInt(Value v) { return IntValue.gen(v instanceof StringValue ? Integer.parseInt(((StringValue) v).val.toString()) : (int) d(v)); }
  // short decimal text for messages
  @TLAPlusOperator(identifier = "Txt", module = "F64", warn = false)
  public static Value txt(Value v) { return new StringValue(v instanceof F64Value ? String.format("%.17g", d(v)) : v.toString()); }

  public static class F64Value extends Value {
    final double v;
    F64Value(double v) { this.v = v; }
    public byte getKind() { return REALVALUE; }
    public String getKindString() { return "a double"; }
    public boolean member(Value e) { throw new RuntimeException("member of double"); }
    public Value takeExcept(ValueExcept e) { if (e.idx >= e.path.length) return e.value; throw new RuntimeException("except of double"); }
    public Value takeExcept(ValueExcept[] e) { Value x = this; for (ValueExcept z : e) x = z.idx >= z.path.length ? z.value : takeExcept(z); return x; }
    public Value normalize() { return this; }
    public boolean mutates() { return false; }
    public boolean isFinite() { return false; }
    public int size() { throw new RuntimeException("size of double"); }
    public boolean isNormalized() { return true; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean assignable(Value o) { return equals(o); }
    public IValue initialize() { return this; }
    public int compareTo(Object o) {
      if (o instanceof F64Value) return Double.compare(v, ((F64Value) o).v);
      if (o instanceof IntValue) return Double.compare(v, ((IntValue) o).val);
      return 1;
    }
    public boolean equals(Object o) {
      if (o instanceof F64Value) { double w = ((F64Value) o).v; return v == w || (v != v && w != w); }
      if (o instanceof IntValue) return v == ((IntValue) o).val;
      return false;
    }
    public long fingerPrint(long fp) { return tlc2.util.FP64.Extend(tlc2.util.FP64.Extend(fp, (char) REALVALUE), Double.doubleToRawLongBits(v)); }
    public IValue permute(IMVPerm p) { return this; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append(Double.toString(v)); }
  }
}
