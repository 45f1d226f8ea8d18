package rdv;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.ArrayList;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Unbounded-integer implementation of the operators of spec/Num.tla. */
public class Num {
    /** an extended rational; d == 0 encodes NaN / +-Inf by the sign of n */
    public static final class Q extends UserObj {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        @Override public int compareTo(Value v) {
            Q o = q(v);
            if (d.signum() == 0 || o.d.signum() == 0) {
                if (n.equals(o.n) && d.equals(o.d)) return 0;
                // total order for set membership only: NaN < -Inf < finite < Inf
                return Integer.compare(rank(), o.rank());
            }
            return n.multiply(o.d).compareTo(o.n.multiply(d));
        }
        int rank() { return d.signum() != 0 ? 0 : n.signum() == 0 ? -2 : n.signum(); }
        @Override public boolean member(Value v) { throw new RuntimeException("number is not a set"); }
        @Override public boolean isFinite() { return true; }
        @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
            return sb.append('"').append(str(this)).append('"');
        }
    }
    static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;
    static final Q QNAN = new Q(Z, Z), QINF = new Q(ONE, Z), QNINF = new Q(ONE.negate(), Z);
    static final Value VNAN = new UserValue(QNAN), VINF = new UserValue(QINF), VNINF = new UserValue(QNINF);
    static final int LIMIT = 2000, KEEP = 600;

    static Q q(Value v) {
        if (v instanceof UserValue) return (Q) ((UserValue) v).userObj;
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
        throw new RuntimeException("not a number: " + v);
    }
    static boolean nan(Q x) { return x.d.signum() == 0 && x.n.signum() == 0; }
    static boolean inf(Q x) { return x.d.signum() == 0 && x.n.signum() != 0; }
    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return n.signum() == 0 ? QNAN : n.signum() > 0 ? QINF : QNINF;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        if (d.bitLength() > LIMIT) {      // keep ~KEEP significant bits: error far below every tolerance
            int sh = KEEP - (n.bitLength() - d.bitLength());
            BigInteger m = sh >= 0 ? n.shiftLeft(sh).divide(d) : n.divide(d).shiftRight(-sh);
            return sh >= 0 ? mk(m, ONE.shiftLeft(sh)) : mk(m.shiftLeft(-sh), ONE);
        }
        return new Q(n, d);
    }
    static Value v(Q x) { return x == QNAN ? VNAN : x == QINF ? VINF : x == QNINF ? VNINF : new UserValue(x); }
    static Q neg(Q x) { return nan(x) ? QNAN : inf(x) ? (x.n.signum() > 0 ? QNINF : QINF) : new Q(x.n.negate(), x.d); }
    static Q add(Q x, Q y) {
        if (nan(x) || nan(y)) return QNAN;
        if (inf(x)) return inf(y) && x.n.signum() != y.n.signum() ? QNAN : x;
        if (inf(y)) return y;
        if (x.d.equals(y.d)) return mk(x.n.add(y.n), x.d);
        return mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    static Q mul(Q x, Q y) {
        if (nan(x) || nan(y)) return QNAN;
        if (inf(x) || inf(y)) return mk(BigInteger.valueOf(x.n.signum() * y.n.signum()), Z);
        return mk(x.n.multiply(y.n), x.d.multiply(y.d));
    }
    static Q div(Q x, Q y) {
        if (nan(x) || nan(y)) return QNAN;
        if (inf(y)) return inf(x) ? QNAN : new Q(Z, ONE);
        if (inf(x)) return y.n.signum() < 0 ? neg(x) : x;
        if (y.n.signum() == 0) return mk(BigInteger.valueOf(x.n.signum()), Z);
        return mk(x.n.multiply(y.d), x.d.multiply(y.n));
    }
    /** IEEE comparison: -2 when unordered */
    static int cmp(Q x, Q y) {
        if (nan(x) || nan(y)) return -2;
        if (inf(x) || inf(y)) return Integer.compare(inf(x) ? x.n.signum() : 0, inf(y) ? y.n.signum() : 0);
        return Integer.signum(x.n.multiply(y.d).compareTo(y.n.multiply(x.d)));
    }
    static Q abs(Q x) { return x.n.signum() < 0 ? neg(x) : x; }
    static String str(Q x) {
        if (nan(x)) return "nan";
        if (inf(x)) return x.n.signum() > 0 ? "inf" : "-inf";
        if (x.d.equals(ONE)) return x.n.toString();
        return new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(17)).toString();
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] seq(Value s) {
        Value t = s.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + s);
        return ((TupleValue) t).elems;
    }

    @TLAPlusOperator(identifier = "NaN", module = "Num", warn = false) public static Value nan() { return VNAN; }
    @TLAPlusOperator(identifier = "Inf", module = "Num", warn = false) public static Value inf() { return VINF; }
    @TLAPlusOperator(identifier = "NInf", module = "Num", warn = false) public static Value ninf() { return VNINF; }
    @TLAPlusOperator(identifier = "NQ", module = "Num", warn = false)
    public static Value nq(final Value a, final Value b) {
        return v(mk(BigInteger.valueOf(((IntValue) a).val), BigInteger.valueOf(((IntValue) b).val)));
    }
    @TLAPlusOperator(identifier = "NI", module = "Num", warn = false)
    public static Value ni(final Value a) { return v(new Q(BigInteger.valueOf(((IntValue) a).val), ONE)); }
    @TLAPlusOperator(identifier = "IsNaN", module = "Num", warn = false)
    public static Value isnan(final Value a) { return bool(nan(q(a))); }
    @TLAPlusOperator(identifier = "IsInf", module = "Num", warn = false)
    public static Value isinf(final Value a) { return bool(inf(q(a))); }
    @TLAPlusOperator(identifier = "Fin", module = "Num", warn = false)
    public static Value fin(final Value a) { return bool(q(a).d.signum() != 0); }
    @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
    public static Value nneg(final Value a) { return v(neg(q(a))); }
    @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
    public static Value nadd(final Value a, final Value b) { return v(add(q(a), q(b))); }
    @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
    public static Value nsub(final Value a, final Value b) { return v(add(q(a), neg(q(b)))); }
    @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
    public static Value nmul(final Value a, final Value b) { return v(mul(q(a), q(b))); }
    @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
    public static Value ndiv(final Value a, final Value b) { return v(div(q(a), q(b))); }
    @TLAPlusOperator(identifier = "NSgn", module = "Num", warn = false)
    public static Value nsgn(final Value a) { return IntValue.gen(q(a).n.signum()); }
    @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
    public static Value nlt(final Value a, final Value b) { return bool(cmp(q(a), q(b)) == -1); }
    @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
    public static Value nle(final Value a, final Value b) { int c = cmp(q(a), q(b)); return bool(c == -1 || c == 0); }
    @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
    public static Value neq(final Value a, final Value b) { return bool(cmp(q(a), q(b)) == 0); }
    @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
    public static Value nabs(final Value a) { return v(abs(q(a))); }
    @TLAPlusOperator(identifier = "NMin", module = "Num", warn = false)
    public static Value nmin(final Value a, final Value b) { return cmp(q(b), q(a)) == -1 ? b : a; }
    @TLAPlusOperator(identifier = "NMax", module = "Num", warn = false)
    public static Value nmax(final Value a, final Value b) { return cmp(q(a), q(b)) == -1 ? b : a; }
    @TLAPlusOperator(identifier = "NFloor", module = "Num", warn = false)
    public static Value nfloor(final Value a) {
        Q x = q(a);
        BigInteger[] r = x.n.divideAndRemainder(x.d);
        return IntValue.gen((r[1].signum() < 0 ? r[0].subtract(ONE) : r[0]).intValueExact());
    }
    @TLAPlusOperator(identifier = "NSum", module = "Num", warn = false)
    public static Value nsum(final Value s) {
        Q r = new Q(Z, ONE);
        for (Value e : seq(s)) r = add(r, q(e));
        return v(r);
    }
    @TLAPlusOperator(identifier = "NPrefix", module = "Num", warn = false)
    public static Value nprefix(final Value s) {
        Value[] e = seq(s), out = new Value[e.length + 1];
        Q r = new Q(Z, ONE);
        out[0] = v(r);
        for (int i = 0; i < e.length; i++) { r = add(r, q(e[i])); out[i + 1] = v(r); }
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "NDot", module = "Num", warn = false)
    public static Value ndot(final Value a, final Value b) {
        Value[] x = seq(a), y = seq(b);
        Q r = new Q(Z, ONE);
        for (int i = 0; i < x.length; i++) r = add(r, mul(q(x[i]), q(y[i])));
        return v(r);
    }
    @TLAPlusOperator(identifier = "NPairSlopes", module = "Num", warn = false)
    public static Value npairslopes(final Value a, final Value b) {
        Value[] x = seq(a), y = seq(b);
        ArrayList<Q> l = new ArrayList<>();
        for (int i = 0; i < x.length; i++) for (int j = i + 1; j < x.length; j++)
            l.add(div(add(q(y[j]), neg(q(y[i]))), new Q(BigInteger.valueOf(((IntValue) x[j]).val - ((IntValue) x[i]).val), ONE)));
        l.sort((p, r) -> cmp(p, r));
        Value[] out = new Value[l.size()];
        for (int i = 0; i < out.length; i++) out[i] = v(l.get(i));
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "NSort", module = "Num", warn = false)
    public static Value nsort(final Value s) {
        ArrayList<Value> l = new ArrayList<>();
        for (Value e : seq(s)) if (!nan(q(e))) l.add(e);
        l.sort((a, b) -> cmp(q(a), q(b)));
        return new TupleValue(l.toArray(new Value[0]));
    }
    @TLAPlusOperator(identifier = "NP", module = "Num", warn = false)
    public static Value np(final Value s) { return v(parse(((StringValue) s).val.toString())); }
    static Q parse(String t) {
        if (t.equals("nan")) return QNAN;
        if (t.equals("inf")) return QINF;
        if (t.equals("-inf")) return QNINF;
        int i = t.indexOf('/');
        if (i < 0) return new Q(new BigInteger(t), ONE);
        return mk(new BigInteger(t.substring(0, i)), new BigInteger(t.substring(i + 1)));
    }
    @TLAPlusOperator(identifier = "NClose", module = "Num", warn = false)
    public static Value nclose(final Value a, final Value b, final Value rt, final Value at) {
        Q x = q(a), y = q(b);
        if (nan(x) || nan(y)) return bool(nan(x) && nan(y));
        if (inf(x) || inf(y)) return bool(inf(x) && inf(y) && x.n.signum() == y.n.signum());
        Q diff = abs(add(x, neg(y)));
        return bool(cmp(diff, add(q(at), mul(q(rt), abs(y)))) <= 0);
    }
    @TLAPlusOperator(identifier = "NStr", module = "Num", warn = false)
    public static Value nstr(final Value a) { return new StringValue(str(q(a))); }
    static Q ofDouble(double x) {
        if (Double.isNaN(x)) return QNAN;
        if (Double.isInfinite(x)) return x > 0 ? QINF : QNINF;
        BigDecimal b = new BigDecimal(x);
        return b.scale() <= 0 ? new Q(b.toBigIntegerExact(), ONE) : mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }
    static double dbl(Q x) {
        if (nan(x)) return Double.NaN;
        if (inf(x)) return x.n.signum() > 0 ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY;
        return new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(40)).doubleValue();
    }
    @TLAPlusOperator(identifier = "NBinTail", module = "Num", warn = false)
    public static Value nbintail(final Value nn, final Value pp, final Value mm) {
        int n = ((IntValue) nn).val, m = ((IntValue) mm).val;
        MathContext mc = new MathContext(60);
        Q pq = q(pp);
        if (m <= 0) return v(new Q(ONE, ONE));
        if (pq.n.signum() <= 0) return v(new Q(Z, ONE));
        BigDecimal p = new BigDecimal(pq.n).divide(new BigDecimal(pq.d), mc);
        BigDecimal r = BigDecimal.ONE.subtract(p, mc);
        if (r.signum() <= 0) return v(new Q(ONE, ONE));
        BigDecimal term = r.pow(n, mc), sum = BigDecimal.ZERO;      // k = 0
        BigDecimal ratio = p.divide(r, mc);
        for (int k = 0; k <= n; k++) {
            if (k >= m) sum = sum.add(term, mc);
            if (k < n) term = term.multiply(ratio, mc).multiply(BigDecimal.valueOf(n - k), mc).divide(BigDecimal.valueOf(k + 1), mc);
        }
        BigDecimal s = sum.round(new MathContext(40));
        return v(s.scale() <= 0 ? new Q(s.toBigInteger(), ONE) : mk(s.unscaledValue(), BigInteger.TEN.pow(s.scale())));
    }
    @TLAPlusOperator(identifier = "NRound", module = "Num", warn = false)
    public static Value nround(final Value a, final Value bits) {
        final Q x = q(a);
        if (x.d.signum() == 0) return a;
        final int b = ((IntValue) bits).val;
        final BigInteger two = BigInteger.valueOf(2);
        final BigInteger[] qr = x.n.shiftLeft(b + 1).add(x.d).divideAndRemainder(x.d.multiply(two));
        final BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
        return v(mk(f, ONE.shiftLeft(b)));
    }
    @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
    public static Value nsqrt(final Value a) { return v(ofDouble(Math.sqrt(dbl(q(a))))); }
    @TLAPlusOperator(identifier = "NCos", module = "Num", warn = false)
    public static Value ncos(final Value a) {
        Q x = q(a);
        if (x.d.signum() == 0) return VNAN;
        Q f = mk(x.n.mod(x.d), x.d);        // fractional turn
        return v(ofDouble(Math.cos(2 * Math.PI * dbl(f))));
    }
    @TLAPlusOperator(identifier = "NExp", module = "Num", warn = false)
    public static Value nexp(final Value a) { return v(ofDouble(Math.exp(dbl(q(a))))); }
}
