package vt;
// TLC evaluation of the operators of spec/Num.tla: exact naturals/integers as decimal numerals, plus
// the writers through which TLC hands its state graph and its findings to the conformance harness.
import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.util.*;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import tlc2.value.IValue;

public class Num implements ITLCOverrides {
  public Class[] get() { return new Class[] { Num.class }; }

  private static BigInteger n(Value v) {
    if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    throw new IllegalArgumentException("not a numeral: " + v);
  }
  private static Value s(BigInteger x) { return new StringValue(x.toString()); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "Add", module = "Num", warn = false) public static Value add(Value a, Value b) { return s(n(a).add(n(b))); }
  @TLAPlusOperator(identifier = "Sub", module = "Num", warn = false) public static Value sub(Value a, Value b) { return s(n(a).subtract(n(b))); }
  @TLAPlusOperator(identifier = "Mul", module = "Num", warn = false) public static Value mul(Value a, Value b) { return s(n(a).multiply(n(b))); }
  @TLAPlusOperator(identifier = "Div", module = "Num", warn = false) public static Value div(Value a, Value b) {
    BigInteger[] q = n(a).divideAndRemainder(n(b)); BigInteger r = q[0];
    if (q[1].signum() != 0 && (q[1].signum() != n(b).signum())) r = r.subtract(BigInteger.ONE);
    return s(r);
  }
  @TLAPlusOperator(identifier = "Le", module = "Num", warn = false) public static Value le(Value a, Value b) { return b(n(a).compareTo(n(b)) <= 0); }
  @TLAPlusOperator(identifier = "Lt", module = "Num", warn = false) public static Value lt(Value a, Value b) { return b(n(a).compareTo(n(b)) < 0); }
  @TLAPlusOperator(identifier = "Z", module = "Num", warn = false) public static Value z(Value a) { return s(n(a)); }
  @TLAPlusOperator(identifier = "ToInt", module = "Num", warn = false) public static Value toInt(Value a) { return IntValue.gen(n(a).intValueExact()); }
  @TLAPlusOperator(identifier = "IsNat", module = "Num", warn = false) public static Value isNat(Value a) {
    return b(a instanceof StringValue && ((StringValue) a).val.toString().matches("0|[1-9][0-9]*"));
  }
  @TLAPlusOperator(identifier = "Same", module = "Num", warn = false) public static Value same(Value a, Value b) { return b(a == b || json(a).equals(json(b))); }
  @TLAPlusOperator(identifier = "SameBag", module = "Num", warn = false) public static Value sameBag(Value a, Value b) { return b(sorted(a).equals(sorted(b))); }
  private static List<String> sorted(Value v) { List<String> l = new ArrayList<>(); for (Value x : range(v)) l.add(json(x)); Collections.sort(l); return l; }
  @TLAPlusOperator(identifier = "Contains", module = "Num", warn = false) public static Value contains(Value a, Value b) {
    return b(((StringValue) a).val.toString().contains(((StringValue) b).val.toString()));
  }
  @TLAPlusOperator(identifier = "StrLen", module = "Num", warn = false) public static Value strLen(Value a) { return IntValue.gen(((StringValue) a).val.toString().length()); }
  private static final java.util.regex.Pattern ID = java.util.regex.Pattern.compile("[a-z0-9]+([-_.][a-z0-9]+)*");
  @TLAPlusOperator(identifier = "IsAccountId", module = "Num", warn = false) public static Value isAccountId(Value a) {
    String x = ((StringValue) a).val.toString();
    return b(x.length() >= 2 && x.length() <= 64 && ID.matcher(x).matches());
  }
  @TLAPlusOperator(identifier = "Prefix", module = "Num", warn = false) public static Value prefix(Value a, Value n) { return new StringValue(((StringValue) a).val.toString().substring(0, ((IntValue) n).val)); }
  @TLAPlusOperator(identifier = "Sha256", module = "Num", warn = false) public static Value sha256(Value a) {
    try {
      byte[] h = java.security.MessageDigest.getInstance("SHA-256").digest(((StringValue) a).val.toString().getBytes("UTF-8"));
      StringBuilder sb = new StringBuilder(); for (byte x : h) sb.append(String.format("%02x", x));
      return new StringValue(sb.toString());
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  @TLAPlusOperator(identifier = "Concat", module = "Num", warn = false) public static Value concat(Value a, Value b) { return new StringValue(((StringValue) a).val.toString() + ((StringValue) b).val.toString()); }
  @TLAPlusOperator(identifier = "SumF", module = "Num", warn = false) public static Value sumF(Value f) {
    BigInteger t = BigInteger.ZERO;
    for (Value v : range(f)) t = t.add(n(v));
    return s(t);
  }
  private static Value[] range(Value f) {
    if (f instanceof TupleValue) return ((TupleValue) f).elems;
    if (f instanceof RecordValue) return ((RecordValue) f).values;
    Value x = f.toFcnRcd();
    if (x == null) x = f.toRcd();
    if (x instanceof RecordValue) return ((RecordValue) x).values;
    return ((FcnRcdValue) x).values;
  }

  // ---- canonical JSON: objects with sorted keys; sets as sorted arrays; any empty collection is [] ----
  public static String json(Value v) { StringBuilder sb = new StringBuilder(); json(v, sb); return sb.toString(); }
  private static void str(String s, StringBuilder sb) {
    sb.append('"');
    for (int i = 0; i < s.length(); i++) { char c = s.charAt(i); if (c == '"' || c == '\\') sb.append('\\').append(c); else if (c < 32) sb.append(String.format("\\u%04x", (int) c)); else sb.append(c); }
    sb.append('"');
  }
  private static void obj(TreeMap<String, Value> m, StringBuilder sb) {
    if (m.isEmpty()) { sb.append("[]"); return; }
    sb.append('{'); boolean first = true;
    for (Map.Entry<String, Value> e : m.entrySet()) { if (!first) sb.append(','); first = false; str(e.getKey(), sb); sb.append(':'); json(e.getValue(), sb); }
    sb.append('}');
  }
  private static void arr(List<String> l, StringBuilder sb) { sb.append('[').append(String.join(",", l)).append(']'); }
  private static void json(Value v, StringBuilder sb) {
    if (v instanceof StringValue) { str(((StringValue) v).val.toString(), sb); return; }
    if (v instanceof IntValue) { sb.append(((IntValue) v).val); return; }
    if (v instanceof BoolValue) { sb.append(((BoolValue) v).val); return; }
    if (v instanceof ModelValue) { str(v.toString(), sb); return; }
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v; TreeMap<String, Value> m = new TreeMap<>();
      for (int i = 0; i < r.names.length; i++) m.put(r.names[i].toString(), r.values[i]);
      obj(m, sb); return;
    }
    if (v instanceof TupleValue) { List<String> l = new ArrayList<>(); for (Value x : ((TupleValue) v).elems) l.add(json(x)); arr(l, sb); return; }
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
      FcnRcdValue f = (FcnRcdValue) v.toFcnRcd(); Value[] d = f.getDomainAsValues();
      if (d.length == 0) { sb.append("[]"); return; }
      boolean strs = true; for (Value x : d) if (!(x instanceof StringValue)) strs = false;
      if (strs) { TreeMap<String, Value> m = new TreeMap<>(); for (int i = 0; i < d.length; i++) m.put(((StringValue) d[i]).val.toString(), f.values[i]); obj(m, sb); return; }
      boolean seq = true; TreeMap<Integer, Value> im = new TreeMap<>();
      for (int i = 0; i < d.length; i++) if (d[i] instanceof IntValue) im.put(((IntValue) d[i]).val, f.values[i]); else seq = false;
      if (seq && im.firstKey() == 1 && im.lastKey() == d.length) { List<String> l = new ArrayList<>(); for (Value x : im.values()) l.add(json(x)); arr(l, sb); return; }
      TreeMap<String, Value> m = new TreeMap<>(); for (int i = 0; i < d.length; i++) m.put(json(d[i]), f.values[i]); obj(m, sb); return;
    }
    Value e = v.toSetEnum();
    if (e instanceof SetEnumValue) {
      TreeSet<String> t = new TreeSet<>(); ValueVec es = ((SetEnumValue) e).elems;
      for (int i = 0; i < es.size(); i++) t.add(json(es.elementAt(i)));
      arr(new ArrayList<>(t), sb); return;
    }
    throw new IllegalArgumentException("cannot write " + v.getClass());
  }

  // The recording being validated, read once.
  private static final java.util.concurrent.ConcurrentHashMap<String, Value> files = new java.util.concurrent.ConcurrentHashMap<>();
  @TLAPlusOperator(identifier = "Recording", module = "Num", warn = false) public static Value recording(Value env) {
    return files.computeIfAbsent(((StringValue) env).val.toString(), k -> {
      try { Value v = (Value) tlc2.overrides.Json.deserialize(new StringValue(System.getenv(k))); v.deepNormalize(); return v; }
      catch (Exception e) { throw new RuntimeException(e); }
    });
  }

  // ---- writers ------------------------------------------------------------------------------------
  private static PrintWriter emit, report;
  private static synchronized PrintWriter open(String prop) {
    String f = System.getProperty(prop);
    if (f == null) return null;
    try {
      PrintWriter w = new PrintWriter(new BufferedWriter(new OutputStreamWriter(new FileOutputStream(f), StandardCharsets.UTF_8), 1 << 16));
      Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (w) { w.flush(); w.close(); } }));
      return w;
    } catch (IOException e) { throw new RuntimeException(e); }
  }
  private static String id(Value v) {
    try { byte[] h = MessageDigest.getInstance("MD5").digest(json(v).getBytes(StandardCharsets.UTF_8)); StringBuilder sb = new StringBuilder(); for (int i = 0; i < 8; i++) sb.append(String.format("%02x", h[i])); return sb.toString(); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  private static final Object lock = new Object();
  private static void line(boolean rep, String s) {
    synchronized (lock) {
      if (rep) { if (report == null) report = open("vt.report"); if (report != null) report.println(s); }
      else { if (emit == null) emit = open("vt.emit"); if (emit != null) emit.println(s); }
    }
  }
  @TLAPlusOperator(identifier = "EmitRoot", module = "Num", warn = false) public static Value emitRoot(Value cfg, Value st) {
    if (System.getProperty("vt.emit") != null) line(false, "{\"root\":\"" + id(st) + "\",\"cfg\":" + json(cfg) + "}");
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "Emit", module = "Num", warn = false) public static Value emit(Value from, Value act, Value exp, Value to) {
    if (System.getProperty("vt.emit") != null) line(false, "{\"from\":\"" + id(from) + "\",\"act\":" + json(act) + ",\"exp\":" + json(exp) + ",\"to\":\"" + id(to) + "\"}");
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "Report", module = "Num", warn = false) public static Value report(Value x) { line(true, json(x)); return BoolValue.ValTrue; }
}
