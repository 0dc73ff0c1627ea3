package hlc;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;

import com.google.gson.*;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Java implementation of the operators declared in spec/Num.tla.
 *
 * A real is carried through TLC as the pair <<hi, lo>> of the two signed 32-bit words of an
 * IEEE-754 double, because TLC's own integers have 32 bits and it has no fractions.
 */
public final class NumImpl {

    private static final Map<String, Value> LIT = new ConcurrentHashMap<>();

    static Value R(double d) {
        long b = Double.doubleToRawLongBits(d);
        return new TupleValue(new Value[]{IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b)});
    }

    static double D(IValue v) {
        Value[] e = T(v).elems;
        if (e.length != 2) throw new RuntimeException("not a real: " + v);
        return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
    }

    static TupleValue T(IValue v) {
        if (v instanceof TupleValue) return (TupleValue) v;
        Value t = ((Value) v).toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return (TupleValue) t;
    }

    static double[] V(IValue v) {
        Value[] e = T(v).elems;
        double[] r = new double[e.length];
        for (int i = 0; i < r.length; i++) r[i] = D(e[i]);
        return r;
    }

    static Value RV(double[] d) {
        Value[] e = new Value[d.length];
        for (int i = 0; i < e.length; i++) e[i] = R(d[i]);
        return new TupleValue(e);
    }

    static Value B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int I(IValue v) { return ((IntValue) v).val; }
    static String S(IValue v) { return ((StringValue) v).val.toString(); }

    interface F1 { double f(double x); }
    interface F2 { double f(double x, double y); }

    static Value map(IValue v, F1 f) {
        double[] a = V(v);
        for (int i = 0; i < a.length; i++) a[i] = f.f(a[i]);
        return RV(a);
    }

    static Value zip(IValue v, IValue w, F2 f) {
        double[] a = V(v), b = V(w);
        if (a.length != b.length) throw new RuntimeException("vector lengths differ: " + a.length + " " + b.length);
        for (int i = 0; i < a.length; i++) a[i] = f.f(a[i], b[i]);
        return RV(a);
    }

    // ---- scalars -------------------------------------------------------------------------
    @TLAPlusOperator(identifier = "N", module = "Num", warn = false)
    public static Value N(Value s) {
        String k = S(s);
        Value v = LIT.get(k);
        if (v == null) { v = R(Double.parseDouble(k)); LIT.put(k, v); }
        return v;
    }
    @TLAPlusOperator(identifier = "FromInt", module = "Num", warn = false)
    public static Value FromInt(Value i) { return R(I(i)); }
    @TLAPlusOperator(identifier = "\\oplus", module = "Num", warn = false)
    public static Value add(Value a, Value b) { return R(D(a) + D(b)); }
    @TLAPlusOperator(identifier = "\\ominus", module = "Num", warn = false)
    public static Value sub(Value a, Value b) { return R(D(a) - D(b)); }
    @TLAPlusOperator(identifier = "\\otimes", module = "Num", warn = false)
    public static Value mul(Value a, Value b) { return R(D(a) * D(b)); }
    @TLAPlusOperator(identifier = "\\oslash", module = "Num", warn = false)
    public static Value div(Value a, Value b) { return R(D(a) / D(b)); }
    @TLAPlusOperator(identifier = "\\prec", module = "Num", warn = false)
    public static Value lt(Value a, Value b) { return B(D(a) < D(b)); }
    @TLAPlusOperator(identifier = "\\preceq", module = "Num", warn = false)
    public static Value le(Value a, Value b) { return B(D(a) <= D(b)); }
    @TLAPlusOperator(identifier = "Neg", module = "Num", warn = false)
    public static Value Neg(Value a) { return R(-D(a)); }
    @TLAPlusOperator(identifier = "Abs", module = "Num", warn = false)
    public static Value Abs(Value a) { return R(Math.abs(D(a))); }
    @TLAPlusOperator(identifier = "Sqrt", module = "Num", warn = false)
    public static Value Sqrt(Value a) { return R(Math.sqrt(D(a))); }
    @TLAPlusOperator(identifier = "Exp", module = "Num", warn = false)
    public static Value Exp(Value a) { return R(Math.exp(D(a))); }
    @TLAPlusOperator(identifier = "Ln", module = "Num", warn = false)
    public static Value Ln(Value a) { return R(Math.log(D(a))); }
    @TLAPlusOperator(identifier = "Pow", module = "Num", warn = false)
    public static Value Pow(Value a, Value b) { return R(Math.pow(D(a), D(b))); }
    @TLAPlusOperator(identifier = "Sin", module = "Num", warn = false)
    public static Value Sin(Value a) { return R(Math.sin(D(a))); }
    @TLAPlusOperator(identifier = "Cos", module = "Num", warn = false)
    public static Value Cos(Value a) { return R(Math.cos(D(a))); }
    @TLAPlusOperator(identifier = "Tan", module = "Num", warn = false)
    public static Value Tan(Value a) { return R(Math.tan(D(a))); }
    @TLAPlusOperator(identifier = "ASin", module = "Num", warn = false)
    public static Value ASin(Value a) { return R(Math.asin(D(a))); }
    @TLAPlusOperator(identifier = "ACos", module = "Num", warn = false)
    public static Value ACos(Value a) { return R(Math.acos(D(a))); }
    @TLAPlusOperator(identifier = "ATan2", module = "Num", warn = false)
    public static Value ATan2(Value a, Value b) { return R(Math.atan2(D(a), D(b))); }
    @TLAPlusOperator(identifier = "Sinh", module = "Num", warn = false)
    public static Value Sinh(Value a) { return R(Math.sinh(D(a))); }
    @TLAPlusOperator(identifier = "Cosh", module = "Num", warn = false)
    public static Value Cosh(Value a) { return R(Math.cosh(D(a))); }
    @TLAPlusOperator(identifier = "FloorInt", module = "Num", warn = false)
    public static Value FloorInt(Value a) { return IntValue.gen((int) Math.floor(D(a))); }
    @TLAPlusOperator(identifier = "CeilInt", module = "Num", warn = false)
    public static Value CeilInt(Value a) { return IntValue.gen((int) Math.ceil(D(a))); }
    /* round half even at the given number of decimals, as numpy does */
    @TLAPlusOperator(identifier = "RoundTo", module = "Num", warn = false)
    public static Value RoundTo(Value a, Value d) {
        double p = Math.pow(10, I(d));
        return R(Math.rint(D(a) * p) / p);
    }
    @TLAPlusOperator(identifier = "Min2", module = "Num", warn = false)
    public static Value Min2(Value a, Value b) { return R(Math.min(D(a), D(b))); }
    @TLAPlusOperator(identifier = "Max2", module = "Num", warn = false)
    public static Value Max2(Value a, Value b) { return R(Math.max(D(a), D(b))); }
    @TLAPlusOperator(identifier = "IsNaN", module = "Num", warn = false)
    public static Value IsNaN(Value a) { return B(Double.isNaN(D(a))); }
    @TLAPlusOperator(identifier = "IsFinite", module = "Num", warn = false)
    public static Value IsFinite(Value a) { double d = D(a); return B(!Double.isNaN(d) && !Double.isInfinite(d)); }
    @TLAPlusOperator(identifier = "Show", module = "Num", warn = false)
    public static Value Show(Value a) { return new StringValue(Double.toString(D(a))); }
    @TLAPlusOperator(identifier = "Near", module = "Num", warn = false)
    public static Value Near(Value a, Value b, Value rel, Value abs) {
        return B(near(D(a), D(b), D(rel), D(abs)));
    }
    static boolean near(double a, double b, double rel, double abs) {
        if (a == b) return true;
        return Math.abs(a - b) <= abs + rel * Math.max(Math.abs(a), Math.abs(b));
    }

    // ---- vectors -------------------------------------------------------------------------
    /* make the sequence explicit, so that it is not re-evaluated at each use */
    @TLAPlusOperator(identifier = "Tup", module = "Num", warn = false)
    public static Value Tup(Value f) { return T(f); }
    @TLAPlusOperator(identifier = "Sum", module = "Num", warn = false)
    public static Value Sum(Value v) { double s = 0; for (double x : V(v)) s += x; return R(s); }
    @TLAPlusOperator(identifier = "SumAbs", module = "Num", warn = false)
    public static Value SumAbs(Value v) { double s = 0; for (double x : V(v)) s += Math.abs(x); return R(s); }
    @TLAPlusOperator(identifier = "VMaxAbs", module = "Num", warn = false)
    public static Value VMaxAbs(Value v) { double s = 0; for (double x : V(v)) s = Math.max(s, Math.abs(x)); return R(s); }
    @TLAPlusOperator(identifier = "Dot", module = "Num", warn = false)
    public static Value Dot(Value v, Value w) {
        double[] a = V(v), b = V(w);
        if (a.length != b.length) throw new RuntimeException("vector lengths differ");
        double s = 0; for (int i = 0; i < a.length; i++) s += a[i] * b[i];
        return R(s);
    }
    @TLAPlusOperator(identifier = "VAdd", module = "Num", warn = false)
    public static Value VAdd(Value v, Value w) { return zip(v, w, (x, y) -> x + y); }
    @TLAPlusOperator(identifier = "VSub", module = "Num", warn = false)
    public static Value VSub(Value v, Value w) { return zip(v, w, (x, y) -> x - y); }
    @TLAPlusOperator(identifier = "VMul", module = "Num", warn = false)
    public static Value VMul(Value v, Value w) { return zip(v, w, (x, y) -> x * y); }
    @TLAPlusOperator(identifier = "VDiv", module = "Num", warn = false)
    public static Value VDiv(Value v, Value w) { return zip(v, w, (x, y) -> x / y); }
    @TLAPlusOperator(identifier = "VScale", module = "Num", warn = false)
    public static Value VScale(Value k, Value v) { final double c = D(k); return map(v, x -> c * x); }
    @TLAPlusOperator(identifier = "VConst", module = "Num", warn = false)
    public static Value VConst(Value n, Value x) {
        Value[] e = new Value[I(n)]; Arrays.fill(e, x); return new TupleValue(e);
    }
    @TLAPlusOperator(identifier = "VNear", module = "Num", warn = false)
    public static Value VNear(Value v, Value w, Value rel, Value abs) {
        double[] a = V(v), b = V(w);
        if (a.length != b.length) return BoolValue.ValFalse;
        double r = D(rel), s = D(abs);
        for (int i = 0; i < a.length; i++) if (!near(a[i], b[i], r, s)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    @TLAPlusOperator(identifier = "VAllFinite", module = "Num", warn = false)
    public static Value VAllFinite(Value v) {
        for (double x : V(v)) if (Double.isNaN(x) || Double.isInfinite(x)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    /* |sum of terms| <= abs + rel * (sum of |terms|) */
    @TLAPlusOperator(identifier = "Balanced", module = "Num", warn = false)
    public static Value Balanced(Value v, Value rel, Value abs) {
        double s = 0, m = 0;
        for (double x : V(v)) { s += x; m += Math.abs(x); }
        return B(Math.abs(s) <= D(abs) + D(rel) * m);
    }
    /* solution x of M x = b (Gaussian elimination with partial pivoting) */
    @TLAPlusOperator(identifier = "Solve", module = "Num", warn = false)
    public static Value Solve(Value M, Value b) {
        Value[] rows = T(M).elems; int n = rows.length;
        double[][] a = new double[n][]; for (int i = 0; i < n; i++) a[i] = V(rows[i]);
        double[] x = V(b);
        for (int c = 0; c < n; c++) {
            int p = c; for (int i = c + 1; i < n; i++) if (Math.abs(a[i][c]) > Math.abs(a[p][c])) p = i;
            double[] t = a[c]; a[c] = a[p]; a[p] = t; double u = x[c]; x[c] = x[p]; x[p] = u;
            for (int i = c + 1; i < n; i++) {
                double f = a[i][c] / a[c][c]; if (f == 0) continue;
                for (int k = c; k < n; k++) a[i][k] -= f * a[c][k];
                x[i] -= f * x[c];
            }
        }
        for (int i = n - 1; i >= 0; i--) {
            double s = x[i]; for (int k = i + 1; k < n; k++) s -= a[i][k] * x[k];
            x[i] = s / a[i][i];
        }
        return RV(x);
    }
    /* largest |a_i - b_i| over two vectors, as a printable string */
    @TLAPlusOperator(identifier = "VGap", module = "Num", warn = false)
    public static Value VGap(Value v, Value w) {
        double[] a = V(v), b = V(w); double m = 0; int at = -1;
        if (a.length != b.length) return new StringValue("lengths " + a.length + " / " + b.length);
        for (int i = 0; i < a.length; i++) {
            double g = Math.abs(a[i] - b[i]); if (Double.isNaN(g) && !(Double.isNaN(a[i]) && Double.isNaN(b[i]))) g = Double.POSITIVE_INFINITY;
            if (g > m) { m = g; at = i; }
        }
        return new StringValue(at < 0 ? "0" : "at " + (at + 1) + ": " + a[at] + " / " + b[at]);
    }
    /* index (1-based) of the first place where two vectors differ, 0 when they agree */
    @TLAPlusOperator(identifier = "VFirstGap", module = "Num", warn = false)
    public static Value VFirstGap(Value v, Value w, Value rel, Value abs) {
        double[] a = V(v), b = V(w); double r = D(rel), s = D(abs);
        if (a.length != b.length) return IntValue.gen(Math.min(a.length, b.length) + 1);
        for (int i = 0; i < a.length; i++) if (!near(a[i], b[i], r, s)) return IntValue.gen(i + 1);
        return IntValue.gen(0);
    }

    // ---- input and output ------------------------------------------------------------------
    /* JSON file -> TLA+ value; numbers written with a fraction or exponent become reals */
    @TLAPlusOperator(identifier = "LoadReals", module = "Num", warn = false)
    public static synchronized Value LoadReals(Value path) throws IOException {
        Value known = loaded.get(S(path));      // TLC evaluates the constant it defines many times
        if (known == null) { known = load(path); loaded.put(S(path), known); }
        return known;
    }
    private static final Map<String, Value> loaded = new HashMap<>();
    static Value load(Value path) throws IOException {
        try (Reader r = new InputStreamReader(new FileInputStream(S(path)), StandardCharsets.UTF_8)) {
            return conv(new JsonParser().parse(r));
        }
    }
    static Value conv(JsonElement e) {
        if (e.isJsonArray()) {
            JsonArray a = e.getAsJsonArray(); Value[] v = new Value[a.size()];
            for (int i = 0; i < v.length; i++) v[i] = conv(a.get(i));
            return new TupleValue(v);
        }
        if (e.isJsonObject()) {
            List<UniqueString> k = new ArrayList<>(); List<Value> v = new ArrayList<>();
            for (Map.Entry<String, JsonElement> x : e.getAsJsonObject().entrySet()) {
                k.add(UniqueString.uniqueStringOf(x.getKey())); v.add(conv(x.getValue()));
            }
            return new RecordValue(k.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
        }
        if (e.isJsonNull()) return new StringValue("null");
        JsonPrimitive p = e.getAsJsonPrimitive();
        if (p.isBoolean()) return B(p.getAsBoolean());
        if (p.isString()) return new StringValue(p.getAsString());
        String s = p.getAsString();
        if (s.equals("NaN")) return R(Double.NaN);
        if (s.equals("Infinity")) return R(Double.POSITIVE_INFINITY);
        if (s.equals("-Infinity")) return R(Double.NEGATIVE_INFINITY);
        if (s.indexOf('.') < 0 && s.indexOf('e') < 0 && s.indexOf('E') < 0) return IntValue.gen(Integer.parseInt(s));
        return R(Double.parseDouble(s));
    }
}
