package vp;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * Java implementation of the arithmetic operators declared in RealNum.tla.
 * TLC only has 32 bit integers; a real number of the specification is a
 * decimal numeral, held as a TLA+ string, and evaluated here with 40
 * significant digits. Nothing in this class knows about particle filters: it
 * implements +, -, *, /, exp, log, sqrt, comparison and finite sums/dot
 * products only.
 */
public class RealNumOverrides implements ITLCOverrides {
    private static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    private static final MathContext MCX = new MathContext(52, RoundingMode.HALF_EVEN);

    private static final class Num {
        final BigDecimal v;
        final int s; // 0 finite, 1 inf, -1 -inf, 2 nan
        Num(BigDecimal v) { this.v = v; this.s = 0; }
        Num(int s) { this.v = null; this.s = s; }
        boolean fin() { return s == 0; }
    }

    private static final Num NAN = new Num(2);
    private static final Num PINF = new Num(1);
    private static final Num NINF = new Num(-1);
    private static final Num ZERO = new Num(BigDecimal.ZERO);
    private static final ConcurrentHashMap<UniqueString, Num> CACHE = new ConcurrentHashMap<>();

    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { RealNumOverrides.class };
    }

    private static Num num(final Value x) {
        if (x instanceof IntValue) {
            return new Num(BigDecimal.valueOf(((IntValue) x).val));
        }
        if (x instanceof StringValue) {
            final UniqueString u = ((StringValue) x).getVal();
            Num n = CACHE.get(u);
            if (n == null) {
                n = parse(u.toString());
                if (CACHE.size() > 2000000) {
                    CACHE.clear();
                }
                CACHE.put(u, n);
            }
            return n;
        }
        throw new IllegalArgumentException("RealNum: not a number: " + x);
    }

    private static Num parse(final String s) {
        switch (s) {
        case "nan": return NAN;
        case "inf": return PINF;
        case "-inf": return NINF;
        default: return new Num(new BigDecimal(s, MC));
        }
    }

    private static Value val(final Num n) {
        final String s;
        if (n.s == 2) {
            s = "nan";
        } else if (n.s == 1) {
            s = "inf";
        } else if (n.s == -1) {
            s = "-inf";
        } else if (n.v.signum() == 0) {
            s = "0";
        } else {
            s = n.v.stripTrailingZeros().toString();
        }
        final UniqueString u = UniqueString.uniqueStringOf(s);
        CACHE.putIfAbsent(u, n);
        return new StringValue(u);
    }

    // ---------------------------------------------------------------- numbers
    private static int sgn(final Num a) {
        return a.s == 0 ? a.v.signum() : a.s;
    }

    private static Num add(final Num a, final Num b) {
        if (a.fin() && b.fin()) {
            return new Num(a.v.add(b.v, MC));
        }
        if (a.s == 2 || b.s == 2) {
            return NAN;
        }
        if (!a.fin() && !b.fin()) {
            return a.s == b.s ? a : NAN;
        }
        return a.fin() ? b : a;
    }

    private static Num neg(final Num a) {
        return a.fin() ? new Num(a.v.negate()) : (a.s == 2 ? NAN : (a.s == 1 ? NINF : PINF));
    }

    private static Num mul(final Num a, final Num b) {
        if (a.fin() && b.fin()) {
            return new Num(a.v.multiply(b.v, MC));
        }
        if (a.s == 2 || b.s == 2) {
            return NAN;
        }
        final int s = sgn(a) * sgn(b);
        return s == 0 ? NAN : (s > 0 ? PINF : NINF);
    }

    private static Num div(final Num a, final Num b) {
        if (a.s == 2 || b.s == 2) {
            return NAN;
        }
        if (!b.fin()) {
            return a.fin() ? ZERO : NAN;
        }
        if (b.v.signum() == 0) {
            return sgn(a) == 0 ? NAN : (sgn(a) > 0 ? PINF : NINF);
        }
        if (!a.fin()) {
            return sgn(a) * sgn(b) > 0 ? PINF : NINF;
        }
        return new Num(a.v.divide(b.v, MC));
    }

    private static final BigDecimal LN2 = ln2();

    private static BigDecimal ln2() {
        // ln 2 = sum 1/(k 2^k)
        BigDecimal s = BigDecimal.ZERO;
        BigDecimal p = BigDecimal.ONE;
        final BigDecimal two = BigDecimal.valueOf(2);
        for (int k = 1; k < 200; k++) {
            p = p.divide(two, MCX);
            s = s.add(p.divide(BigDecimal.valueOf(k), MCX), MCX);
        }
        return s;
    }

    private static BigDecimal expb(final BigDecimal x) {
        final BigInteger k = x.divide(LN2, MCX).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
        final BigDecimal r = x.subtract(LN2.multiply(new BigDecimal(k), MCX), MCX);
        BigDecimal rr = r.divide(BigDecimal.valueOf(256), MCX);
        BigDecimal t = BigDecimal.ONE;
        BigDecimal s = BigDecimal.ONE;
        for (int i = 1; i < 24; i++) {
            t = t.multiply(rr, MCX).divide(BigDecimal.valueOf(i), MCX);
            s = s.add(t, MCX);
        }
        for (int i = 0; i < 8; i++) {
            s = s.multiply(s, MCX);
        }
        final int ki = k.intValueExact();
        if (ki >= 0) {
            return s.multiply(BigDecimal.valueOf(2).pow(ki, MCX), MC);
        }
        return s.divide(BigDecimal.valueOf(2).pow(-ki, MCX), MC);
    }

    private static Num exp(final Num a) {
        if (a.s == 2) {
            return NAN;
        }
        if (a.s == 1) {
            return PINF;
        }
        if (a.s == -1) {
            return ZERO;
        }
        if (a.v.compareTo(BigDecimal.valueOf(1000000)) > 0) {
            return PINF;
        }
        if (a.v.compareTo(BigDecimal.valueOf(-1000000)) < 0) {
            return ZERO;
        }
        return new Num(expb(a.v));
    }

    private static Num log(final Num a) {
        if (a.s == 2 || sgn(a) < 0) {
            return NAN;
        }
        if (a.s == 1) {
            return PINF;
        }
        if (a.v.signum() == 0) {
            return NINF;
        }
        // a = m * 10^e with 0.1 <= m < 1
        final int e = a.v.precision() - a.v.scale();
        final BigDecimal m = a.v.scaleByPowerOfTen(-e);
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 2; i++) {
            final BigDecimal ey = expb(y);
            y = y.add(BigDecimal.valueOf(2).multiply(m.subtract(ey, MCX).divide(m.add(ey, MCX), MCX), MCX), MCX);
        }
        return new Num(y.add(LN10.multiply(BigDecimal.valueOf(e), MCX), MC));
    }

    private static final BigDecimal LN10 = ln10();

    private static BigDecimal ln10() {
        BigDecimal y = new BigDecimal(Math.log(10.0));
        final BigDecimal m = BigDecimal.TEN;
        for (int i = 0; i < 4; i++) {
            final BigDecimal ey = expb(y);
            y = y.add(BigDecimal.valueOf(2).multiply(m.subtract(ey, MCX).divide(m.add(ey, MCX), MCX), MCX), MCX);
        }
        return y;
    }

    private static int cmp(final Num a, final Num b) {
        if (a.fin() && b.fin()) {
            return a.v.compareTo(b.v);
        }
        if (a.s == b.s) {
            return 0;
        }
        final int x = a.fin() ? 0 : a.s;
        final int y = b.fin() ? 0 : b.s;
        return Integer.compare(x, y);
    }

    private static boolean nan(final Num a, final Num b) {
        return a.s == 2 || b.s == 2;
    }

    // ------------------------------------------------------- forcing values
    /** functions and records as explicit values, at every depth */
    private static Value force(final Value v) {
        Value x = v;
        if (x instanceof FcnLambdaValue) {
            x = v.toTuple();
            if (x == null) {
                x = v.toFcnRcd();
            }
        }
        if (x instanceof TupleValue) {
            forceAll(((TupleValue) x).elems);
        } else if (x instanceof FcnRcdValue) {
            forceAll(((FcnRcdValue) x).values);
        } else if (x instanceof RecordValue) {
            forceAll(((RecordValue) x).values);
        }
        return x;
    }

    private static void forceAll(final Value[] vs) {
        for (int i = 0; i < vs.length; i++) {
            if (vs[i] instanceof FcnLambdaValue || vs[i] instanceof TupleValue
                    || vs[i] instanceof FcnRcdValue || vs[i] instanceof RecordValue) {
                final Value w = force(vs[i]);
                if (w != vs[i]) {
                    vs[i] = w;
                }
            }
        }
    }

    @TLAPlusOperator(identifier = "Ev", module = "RealNum", warn = false)
    public static Value ev(final Value v) {
        return force(v);
    }

    // -------------------------------------------------------------- operators
    @TLAPlusOperator(identifier = "RAdd", module = "RealNum", warn = false)
    public static Value rAdd(final Value a, final Value b) {
        return val(add(num(a), num(b)));
    }

    @TLAPlusOperator(identifier = "RSub", module = "RealNum", warn = false)
    public static Value rSub(final Value a, final Value b) {
        return val(add(num(a), neg(num(b))));
    }

    @TLAPlusOperator(identifier = "RMul", module = "RealNum", warn = false)
    public static Value rMul(final Value a, final Value b) {
        return val(mul(num(a), num(b)));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "RealNum", warn = false)
    public static Value rDiv(final Value a, final Value b) {
        return val(div(num(a), num(b)));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "RealNum", warn = false)
    public static Value rNeg(final Value a) {
        return val(neg(num(a)));
    }

    @TLAPlusOperator(identifier = "RExp", module = "RealNum", warn = false)
    public static Value rExp(final Value a) {
        return val(exp(num(a)));
    }

    @TLAPlusOperator(identifier = "RLog", module = "RealNum", warn = false)
    public static Value rLog(final Value a) {
        return val(log(num(a)));
    }

    @TLAPlusOperator(identifier = "RSqrt", module = "RealNum", warn = false)
    public static Value rSqrt(final Value a) {
        final Num n = num(a);
        if (n.s == 2 || sgn(n) < 0) {
            return val(NAN);
        }
        return n.s == 1 ? val(PINF) : val(new Num(n.v.sqrt(MC)));
    }

    @TLAPlusOperator(identifier = "RLt", module = "RealNum", warn = false)
    public static Value rLt(final Value a, final Value b) {
        final Num x = num(a);
        final Num y = num(b);
        return nan(x, y) ? BoolValue.ValFalse : bool(cmp(x, y) < 0);
    }

    @TLAPlusOperator(identifier = "RLe", module = "RealNum", warn = false)
    public static Value rLe(final Value a, final Value b) {
        final Num x = num(a);
        final Num y = num(b);
        return nan(x, y) ? BoolValue.ValFalse : bool(cmp(x, y) <= 0);
    }

    @TLAPlusOperator(identifier = "REq", module = "RealNum", warn = false)
    public static Value rEq(final Value a, final Value b) {
        final Num x = num(a);
        final Num y = num(b);
        return nan(x, y) ? BoolValue.ValFalse : bool(cmp(x, y) == 0);
    }

    @TLAPlusOperator(identifier = "RFinite", module = "RealNum", warn = false)
    public static Value rFinite(final Value a) {
        return bool(num(a).fin());
    }

    @TLAPlusOperator(identifier = "RIsNaN", module = "RealNum", warn = false)
    public static Value rIsNaN(final Value a) {
        return bool(num(a).s == 2);
    }

    @TLAPlusOperator(identifier = "RFloor", module = "RealNum", warn = false)
    public static Value rFloor(final Value a) {
        return IntValue.gen(num(a).v.setScale(0, RoundingMode.FLOOR).intValueExact());
    }

    @TLAPlusOperator(identifier = "RClose", module = "RealNum", warn = false)
    public static Value rClose(final Value a, final Value b, final Value rtol, final Value atol) {
        final Num x = num(a);
        final Num y = num(b);
        if (nan(x, y)) {
            return BoolValue.ValFalse;
        }
        if (!x.fin() || !y.fin()) {
            return bool(x.s == y.s);
        }
        final BigDecimal m = x.v.abs().max(y.v.abs());
        final BigDecimal tol = m.multiply(num(rtol).v, MC).add(num(atol).v, MC);
        return bool(x.v.subtract(y.v, MC).abs().compareTo(tol) <= 0);
    }

    @TLAPlusOperator(identifier = "RNorm", module = "RealNum", warn = false)
    public static Value rNorm(final Value a) {
        return val(num(a));
    }

    @TLAPlusOperator(identifier = "RSum", module = "RealNum", warn = false)
    public static Value rSum(final Value a) {
        Num s = ZERO;
        for (final Value e : elems(a)) {
            s = add(s, num(e));
        }
        return val(s);
    }

    @TLAPlusOperator(identifier = "RMaxSeq", module = "RealNum", warn = false)
    public static Value rMax(final Value a) {
        Num s = NINF;
        for (final Value e : elems(a)) {
            final Num n = num(e);
            if (n.s == 2) {
                return val(NAN);
            }
            if (cmp(n, s) > 0) {
                s = n;
            }
        }
        return val(s);
    }

    @TLAPlusOperator(identifier = "RDot", module = "RealNum", warn = false)
    public static Value rDot(final Value a, final Value b) {
        final Value[] x = elems(a);
        final Value[] y = elems(b);
        if (x.length != y.length) {
            throw new IllegalArgumentException("RDot: lengths " + x.length + " and " + y.length);
        }
        Num s = ZERO;
        for (int i = 0; i < x.length; i++) {
            s = add(s, mul(num(x[i]), num(y[i])));
        }
        return val(s);
    }

    private static Value[] elems(final Value a) {
        final TupleValue t = (TupleValue) a.toTuple();
        if (t == null) {
            throw new IllegalArgumentException("RealNum: not a sequence: " + a);
        }
        return t.elems;
    }

    private static Value bool(final boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
