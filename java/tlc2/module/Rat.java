package tlc2.module;

import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluates the operators of Rat.tla with BigInteger; same values as RatPure.tla. */
public class Rat {
    private static final int B = 10000;
    private static final BigInteger BB = BigInteger.valueOf(B);
    // 4 limbs at a time
    private static final long B4 = 10000L * 10000L * 10000L * 10000L;
    private static final BigInteger BB4 = BigInteger.valueOf(B4);

    private static final class Q {
        final BigInteger n, d; // d > 0, lowest terms
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    }

    /** a value that is not finite: absorbing, and incomparable */
    private static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO);
    private static boolean nan(Q a) { return a.d.signum() == 0; }

    private static Q norm(BigInteger n, BigInteger d) {
        if (n.signum() == 0) return new Q(BigInteger.ZERO, BigInteger.ONE);
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new Q(n, d);
    }

    private static BigInteger nat(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int len = e.length;
        if (len <= 4) {
            long r = 0;
            for (int i = len - 1; i >= 0; i--) r = r * B + ((IntValue) e[i]).val;
            return BigInteger.valueOf(r);
        }
        BigInteger r = BigInteger.ZERO;
        int i = ((len - 1) / 4) * 4;
        for (; i >= 0; i -= 4) {
            long c = 0;
            for (int j = Math.min(len, i + 4) - 1; j >= i; j--) c = c * B + ((IntValue) e[j]).val;
            r = r.multiply(BB4).add(BigInteger.valueOf(c));
        }
        return r;
    }

    private static Q of(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int s = ((IntValue) e[0]).val;
        if (s == 2) return NAN;
        if (s == 0) return new Q(BigInteger.ZERO, BigInteger.ONE);
        BigInteger n = nat(e[1]);
        return new Q(s < 0 ? n.negate() : n, nat(e[2]));
    }

    private static Value limbs(BigInteger n) {
        java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        while (n.bitLength() > 62) {
            BigInteger[] qr = n.divideAndRemainder(BB4);
            long c = qr[1].longValue();
            for (int j = 0; j < 4; j++) { out.add(IntValue.gen((int) (c % B))); c /= B; }
            n = qr[0];
        }
        long c = n.longValue();
        while (c != 0) { out.add(IntValue.gen((int) (c % B))); c /= B; }
        int k = out.size();
        while (k > 0 && ((IntValue) out.get(k - 1)).val == 0) k--;
        return new TupleValue(out.subList(0, k).toArray(new Value[0]));
    }

    private static Value val(Q q) {
        if (nan(q)) return new TupleValue(new Value[] {IntValue.gen(2), new TupleValue(new Value[0]), new TupleValue(new Value[] {IntValue.gen(1)})});
        return new TupleValue(new Value[] {IntValue.gen(q.n.signum()), limbs(q.n.abs()), limbs(q.d)});
    }

    private static Q add(Q a, Q b) {
        if (nan(a) || nan(b)) return NAN;
        if (a.n.signum() == 0) return b;
        if (b.n.signum() == 0) return a;
        if (a.d.equals(b.d)) return norm(a.n.add(b.n), a.d);
        return norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }

    private static Q mul(Q a, Q b) { return nan(a) || nan(b) ? NAN : norm(a.n.multiply(b.n), a.d.multiply(b.d)); }

    private static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }

    private static int i(Value v) { return ((IntValue) v).val; }

    public static Value RQ(Value n, Value d) {
        return val(norm(BigInteger.valueOf(i(n)), BigInteger.valueOf(i(d))));
    }

    public static Value RNeg(Value a) { Q x = of(a); if (nan(x)) return val(NAN); return val(new Q(x.n.negate(), x.d)); }

    public static Value RAbs(Value a) { Q x = of(a); if (nan(x)) return val(NAN); return val(new Q(x.n.abs(), x.d)); }

    public static Value RAdd(Value a, Value b) { return val(add(of(a), of(b))); }

    public static Value RSub(Value a, Value b) {
        Q y = of(b);
        if (nan(y)) return val(NAN);
        return val(add(of(a), new Q(y.n.negate(), y.d)));
    }

    public static Value RMul(Value a, Value b) { return val(mul(of(a), of(b))); }

    public static Value RDiv(Value a, Value b) {
        Q y = of(b);
        if (nan(y) || nan(of(a))) return val(NAN);
        if (y.n.signum() == 0) throw new RuntimeException("division by zero");
        Q x = of(a);
        return val(norm(x.n.multiply(y.d), x.d.multiply(y.n)));
    }

    public static Value RLe(Value a, Value b) { Q x = of(a), y = of(b); return !nan(x) && !nan(y) && cmp(x, y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RLt(Value a, Value b) { Q x = of(a), y = of(b); return !nan(x) && !nan(y) && cmp(x, y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RPow(Value a, Value n) {
        Q x = of(a);
        if (nan(x)) return val(NAN);
        int k = i(n);
        return val(norm(x.n.pow(k), x.d.pow(k)));
    }

    public static Value RSum(Value u) {
        Q s = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (Value e : ((TupleValue) u.toTuple()).elems) s = add(s, of(e));
        return val(s);
    }

    public static Value RDot(Value u, Value v) {
        Value[] x = ((TupleValue) u.toTuple()).elems, y = ((TupleValue) v.toTuple()).elems;
        Q s = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (int j = 0; j < x.length; j++) {
            Q a = of(x[j]);
            Q c = of(y[j]);
            if (nan(a) || nan(c)) return val(NAN);
            if (a.n.signum() == 0) continue;
            s = add(s, mul(a, c));
        }
        return val(s);
    }

    public static Value RFix(Value a, Value k) {
        Q x = of(a);
        if (nan(x)) return val(NAN);
        BigInteger s = BB.pow(i(k));
        return val(norm(x.n.multiply(s).divide(x.d), s)); // BigInteger division truncates
    }

    public static Value RSqrt(Value a, Value k) {
        Q x = of(a);
        if (nan(x)) return val(NAN);
        BigInteger s = BB.pow(i(k));
        return val(norm(x.n.multiply(s).multiply(s).divide(x.d).sqrt(), s));
    }
}
