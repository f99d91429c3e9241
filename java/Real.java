// TLC implementation of the operators declared in spec/Real.tla.
//
// A real is a TLA+ string holding a decimal literal ("0.25", "-1.5E-7") or one of "NaN", "Infinity",
// "-Infinity"; arithmetic is IEEE double.  The TLA+ module says what each operator means.
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Real {
    private static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            return Double.parseDouble(s);
        }
        throw new RuntimeException("Real: not a real: " + v);
    }

    private static Value r(double x) {
        return new StringValue(x == 0.0 ? "0.0" : Double.toString(x));
    }

    private static double[] vec(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("Real: not a sequence: " + v);
        double[] o = new double[t.elems.length];
        for (int i = 0; i < o.length; i++) o[i] = d(t.elems[i]);
        return o;
    }

    private static double[][] mat(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("Real: not a sequence: " + v);
        double[][] o = new double[t.elems.length][];
        for (int i = 0; i < o.length; i++) o[i] = vec(t.elems[i]);
        return o;
    }

    private static Value unvec(double[] a) {
        Value[] o = new Value[a.length];
        for (int i = 0; i < o.length; i++) o[i] = r(a[i]);
        return new TupleValue(o);
    }

    private static Value unmat(double[][] a) {
        Value[] o = new Value[a.length];
        for (int i = 0; i < o.length; i++) o[i] = unvec(a[i]);
        return new TupleValue(o);
    }

    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // the same value with nothing left to evaluate
    public static Value Forced(Value v) {
        if (v instanceof FcnLambdaValue) {
            Value t = v.toTuple();
            v = t != null ? t : v.toFcnRcd();
        }
        Value[] parts = v instanceof TupleValue ? ((TupleValue) v).elems : v instanceof RecordValue ? ((RecordValue) v).values
            : v instanceof FcnRcdValue ? ((FcnRcdValue) v).values : null;
        if (parts == null) return v;
        Value[] o = new Value[parts.length];
        boolean same = true;
        for (int i = 0; i < o.length; i++) { o[i] = Forced(parts[i]); same &= o[i] == parts[i]; }
        if (same) return v;
        if (v instanceof TupleValue) return new TupleValue(o);
        if (v instanceof RecordValue) return new RecordValue(((RecordValue) v).names, o, ((RecordValue) v).isNormalized());
        FcnRcdValue f = (FcnRcdValue) v;
        return f.intv != null ? new FcnRcdValue(f.intv, o) : new FcnRcdValue(f.domain, o, f.isNormalized());
    }

    public static Value R(Value a) { return r(d(a)); }
    public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
    public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
    public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
    public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
    public static Value RNeg(Value a) { return r(-d(a)); }
    public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
    public static Value RExp(Value a) { return r(Math.exp(d(a))); }
    public static Value RLog(Value a) { return r(Math.log(d(a))); }
    public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
    public static Value RSin(Value a) { return r(Math.sin(d(a))); }
    public static Value RCos(Value a) { return r(Math.cos(d(a))); }
    public static Value RPhi(Value a) { return r(phi(d(a))); }
    // normal distribution function by its continued fraction / series (relative accuracy about 1e-12)
    private static double phi(double x) {
        if (Double.isNaN(x)) return x;
        double z = Math.abs(x), p;
        if (z > 38) p = 0;
        else if (z < 7.0) {
            double t = z, sum = z, k = 1;
            while (t > sum * 1e-17) { k += 2; t *= z * z / k; sum += t; if (k > 400) break; }
            p = 0.5 - sum * Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI);
            if (p < 0) p = 0;
        } else {
            double f = z + 0.65;
            for (int i = 30; i >= 1; i--) f = z + i / f;
            p = Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI) / f;
        }
        return x > 0 ? 1 - p : p;
    }
    public static Value RLGamma(Value a) { return r(lgamma(d(a))); }
    private static double lgamma(double x) {
        if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgamma(1 - x);
        x -= 1;
        double[] g = {0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313,
                      -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6,
                      1.5056327351493116e-7};
        double a = g[0], t = x + 7.5;
        for (int i = 1; i < 9; i++) a += g[i] / (x + i);
        return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(a);
    }
    public static Value VSumPow(Value u, Value k) {
        double s = 0; int n = ((IntValue) k).val;
        for (double x : vec(u)) s += Math.pow(x, n);
        return r(s);
    }
    public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
    public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
    public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    public static Value RRound(Value a, Value n) {
        double s = Math.pow(10, ((IntValue) n).val);
        return r(Math.rint(d(a) * s) / s);
    }
    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value RIsFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }

    private static boolean close(double x, double y, double rt, double at) {
        if (Double.isNaN(x) || Double.isNaN(y)) return false;
        if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
        return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
    }

    public static Value RClose(Value a, Value c, Value rt, Value at) {
        return b(close(d(a), d(c), d(rt), d(at)));
    }

    public static Value VClose(Value a, Value c, Value rt, Value at) {
        double[] x = vec(a), y = vec(c);
        if (x.length != y.length) return b(false);
        for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], d(rt), d(at))) return b(false);
        return b(true);
    }

    public static Value MClose(Value a, Value c, Value rt, Value at) {
        double[][] x = mat(a), y = mat(c);
        if (x.length != y.length) return b(false);
        for (int i = 0; i < x.length; i++) {
            if (x[i].length != y[i].length) return b(false);
            for (int j = 0; j < x[i].length; j++)
                if (!close(x[i][j], y[i][j], d(rt), d(at))) return b(false);
        }
        return b(true);
    }

    public static Value VSum(Value a) {
        double s = 0; for (double x : vec(a)) s += x; return r(s);
    }
    public static Value VDot(Value a, Value c) {
        double[] x = vec(a), y = vec(c); double s = 0;
        if (x.length != y.length) throw new RuntimeException("VDot: lengths differ");
        for (int i = 0; i < x.length; i++) s += x[i] * y[i];
        return r(s);
    }
    public static Value VMaxR(Value a) {
        double m = Double.NEGATIVE_INFINITY; for (double x : vec(a)) m = Math.max(m, x); return r(m);
    }
    public static Value VMinR(Value a) {
        double m = Double.POSITIVE_INFINITY; for (double x : vec(a)) m = Math.min(m, x); return r(m);
    }
    private static double lse(double[] x) {
        double m = Double.NEGATIVE_INFINITY;
        for (double v : x) { if (Double.isNaN(v)) return Double.NaN; m = Math.max(m, v); }
        if (Double.isInfinite(m)) return m;
        double s = 0; for (double v : x) s += Math.exp(v - m);
        return m + Math.log(s);
    }
    public static Value VLogSumExp(Value a) { return r(lse(vec(a))); }
    public static Value VSort(Value a) {
        double[] x = vec(a); java.util.Arrays.sort(x); return unvec(x);
    }
    public static Value VAdd(Value a, Value c) {
        double[] x = vec(a), y = vec(c); double[] o = new double[x.length];
        if (x.length != y.length) throw new RuntimeException("VAdd: lengths differ");
        for (int i = 0; i < o.length; i++) o[i] = x[i] + y[i];
        return unvec(o);
    }
    public static Value VSub(Value a, Value c) {
        double[] x = vec(a), y = vec(c); double[] o = new double[x.length];
        if (x.length != y.length) throw new RuntimeException("VSub: lengths differ");
        for (int i = 0; i < o.length; i++) o[i] = x[i] - y[i];
        return unvec(o);
    }
    public static Value VMulE(Value a, Value c) {
        double[] x = vec(a), y = vec(c); double[] o = new double[x.length];
        if (x.length != y.length) throw new RuntimeException("VMulE: lengths differ");
        for (int i = 0; i < o.length; i++) o[i] = x[i] * y[i];
        return unvec(o);
    }
    public static Value VScale(Value k, Value a) {
        double[] x = vec(a); double[] o = new double[x.length]; double kk = d(k);
        for (int i = 0; i < o.length; i++) o[i] = kk * x[i];
        return unvec(o);
    }
    public static Value VShift(Value k, Value a) {
        double[] x = vec(a); double[] o = new double[x.length]; double kk = d(k);
        for (int i = 0; i < o.length; i++) o[i] = kk + x[i];
        return unvec(o);
    }
    public static Value MMul(Value a, Value c) {
        double[][] x = mat(a), y = mat(c);
        double[][] o = new double[x.length][y[0].length];
        for (int i = 0; i < x.length; i++) {
            if (x[i].length != y.length) throw new RuntimeException("MMul: shapes differ");
            for (int j = 0; j < y[0].length; j++)
                for (int k = 0; k < y.length; k++) o[i][j] += x[i][k] * y[k][j];
        }
        return unmat(o);
    }
    public static Value MTr(Value a) {
        double[][] x = mat(a); double[][] o = new double[x[0].length][x.length];
        for (int i = 0; i < x.length; i++) for (int j = 0; j < x[0].length; j++) o[j][i] = x[i][j];
        return unmat(o);
    }
    private static double[][] inv(double[][] m0, double[] det) {
        int n = m0.length; double dt = 1;
        double[][] m = new double[n][2 * n];
        for (int i = 0; i < n; i++) { System.arraycopy(m0[i], 0, m[i], 0, n); m[i][n + i] = 1; }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c; i < n; i++) if (Math.abs(m[i][c]) > Math.abs(m[p][c])) p = i;
            if (p != c) { double[] t = m[p]; m[p] = m[c]; m[c] = t; dt = -dt; }
            dt *= m[c][c];
            double q = m[c][c];
            for (int j = 0; j < 2 * n; j++) m[c][j] /= q;
            for (int i = 0; i < n; i++) if (i != c) {
                double f = m[i][c];
                for (int j = 0; j < 2 * n; j++) m[i][j] -= f * m[c][j];
            }
        }
        det[0] = dt;
        double[][] o = new double[n][n];
        for (int i = 0; i < n; i++) System.arraycopy(m[i], n, o[i], 0, n);
        return o;
    }
    public static Value MInv(Value a) { return unmat(inv(mat(a), new double[1])); }
    public static Value MDet(Value a) { double[] q = new double[1]; inv(mat(a), q); return r(q[0]); }
    public static Value MVec(Value a, Value v) {
        double[][] x = mat(a); double[] y = vec(v); double[] o = new double[x.length];
        for (int i = 0; i < o.length; i++) {
            if (x[i].length != y.length) throw new RuntimeException("MVec: shapes differ");
            for (int k = 0; k < y.length; k++) o[i] += x[i][k] * y[k];
        }
        return unvec(o);
    }
}
