import tlc2.overrides.TLAPlusOperator;
import tlc2.overrides.ITLCOverrides;
import tlc2.value.impl.*;

/* Compiled evaluation of the operators of spec/Fix.tla (limb arithmetic) and of Conv in spec/Ray.tla.
   Same integer arithmetic, limb by limb, as the TLA+ definitions, which stay the reference:
   spec/FixLaws.tla compares both, and VERIF_PURE=1 makes TLC evaluate the TLA+ definitions only. */
public class FixFast implements ITLCOverrides {
    static final int B = 10000;

    public Class[] get() { return new Class[]{FixFast.class, Hi.class}; }

    static int[] in(Value v) {
        Value t = v.toTuple();
        Value[] e = ((TupleValue) t).elems;
        int[] r = new int[e.length];
        for (int i = 0; i < r.length; ++i) r[i] = ((IntValue) e[i]).val;
        return r;
    }

    static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

    static Value out(int[] r) {
        Value[] e = new Value[r.length];
        for (int i = 0; i < r.length; ++i) e[i] = IntValue.gen(r[i]);
        return new TupleValue(e);
    }

    static int[] norm(long[] c) {
        int n = c.length;
        int[] r = new int[n];
        long carry = 0;
        for (int i = 0; i < n - 1; ++i) {
            long d = c[i] + carry;
            carry = Math.floorDiv(d, (long) B);
            r[i] = (int) (d - carry * B);
        }
        r[n - 1] = Math.toIntExact(c[n - 1] + carry);
        return r;
    }

    static int[] muladd(int[] z, int[] x, int[] y) {
        int n = x.length, F = n - 2;
        long[] c = new long[n];
        long k0 = 0, k1 = 0;
        for (int i = 1; i <= F - 1; ++i) k0 += (long) x[i - 1] * y[F - i - 1];
        for (int i = 1; i <= F; ++i) k1 += (long) x[i - 1] * y[F - i];
        k1 += Math.floorDiv(k0, (long) B);
        for (int k = 1; k <= n; ++k) {
            long s = z == null ? 0 : z[k - 1];
            for (int i = Math.max(1, F + 1 + k - n); i <= Math.min(n, F + k); ++i) s += (long) x[i - 1] * y[F + k - i];
            c[k - 1] = s;
        }
        c[0] += Math.floorDiv(k1, (long) B);
        c[n - 1] += (long) B * x[n - 1] * y[n - 1];
        return norm(c);
    }

    static int[] add(int[] x, int[] y, int s) {
        long[] c = new long[x.length];
        for (int i = 0; i < c.length; ++i) c[i] = x[i] + (long) s * y[i];
        return norm(c);
    }

    static int[] div(int[] x, int m) {
        int[] q = new int[x.length];
        long r = 0;
        for (int i = x.length - 1; i >= 0; --i) {
            long t = r * B + x[i];
            q[i] = Math.toIntExact(Math.floorDiv(t, (long) m));
            r = Math.floorMod(t, (long) m);
        }
        return q;
    }

    static int[] sum(Value[] e, int n) {
        int[] s = new int[n];
        for (Value v : e) s = add(s, in(v), 1);
        return s;
    }

    static int[] conv(int[] z, Value[] c, Value[] f, int k) {
        int m = Math.min(k + 1, c.length);
        for (int j = 1; j <= m; ++j) z = muladd(z, in(c[j - 1]), in(f[k + 1 - j]));
        return z;
    }

    @TLAPlusOperator(identifier = "Mul", module = "Fix", warn = false)
    public static Value Mul(Value x, Value y) { return out(muladd(null, in(x), in(y))); }

    @TLAPlusOperator(identifier = "MulAdd", module = "Fix", warn = false)
    public static Value MulAdd(Value z, Value x, Value y) { return out(muladd(in(z), in(x), in(y))); }

    @TLAPlusOperator(identifier = "Add", module = "Fix", warn = false)
    public static Value Add(Value x, Value y) { return out(add(in(x), in(y), 1)); }

    @TLAPlusOperator(identifier = "Sub", module = "Fix", warn = false)
    public static Value Sub(Value x, Value y) { return out(add(in(x), in(y), -1)); }

    @TLAPlusOperator(identifier = "DivInt", module = "Fix", warn = false)
    public static Value DivInt(Value x, Value n) { return out(div(in(x), ((IntValue) n).val)); }

    @TLAPlusOperator(identifier = "SumSeq", module = "Fix", warn = false)
    public static Value SumSeq(Value s) { return out(sum(seq(s), 6)); }

    @TLAPlusOperator(identifier = "Conv", module = "Ray", warn = false)
    public static Value Conv(Value z, Value c, Value f, Value k) { return out(conv(in(z), seq(c), seq(f), ((IntValue) k).val)); }

    public static class Hi {
        @TLAPlusOperator(identifier = "Mul", module = "FixHi", warn = false)
        public static Value Mul(Value x, Value y) { return FixFast.Mul(x, y); }

        @TLAPlusOperator(identifier = "MulAdd", module = "FixHi", warn = false)
        public static Value MulAdd(Value z, Value x, Value y) { return FixFast.MulAdd(z, x, y); }

        @TLAPlusOperator(identifier = "Add", module = "FixHi", warn = false)
        public static Value Add(Value x, Value y) { return FixFast.Add(x, y); }

        @TLAPlusOperator(identifier = "Sub", module = "FixHi", warn = false)
        public static Value Sub(Value x, Value y) { return FixFast.Sub(x, y); }

        @TLAPlusOperator(identifier = "DivInt", module = "FixHi", warn = false)
        public static Value DivInt(Value x, Value n) { return FixFast.DivInt(x, n); }

        @TLAPlusOperator(identifier = "SumSeq", module = "FixHi", warn = false)
        public static Value SumSeq(Value s) { return out(sum(seq(s), 10)); }

        @TLAPlusOperator(identifier = "Conv", module = "RayHi", warn = false)
        public static Value Conv(Value z, Value c, Value f, Value k) { return FixFast.Conv(z, c, f, k); }
    }
}
