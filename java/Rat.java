// TLC module override for spec/Rat.tla: exact rational arithmetic on canonical
// strings ("3", "-7/2", "inf", "-inf", "nan").  Only number primitives live here;
// everything the properties say is written in TLA+ on top of them.  RatCheck.tla
// compares these operators with pure TLA+ definitions over small integers.
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public final class Rat {
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TWO = BigInteger.TWO;

    static final class Q {
        final BigInteger n, d;   // d > 0, gcd = 1; d == 0 encodes inf (n=1), -inf (n=-1), nan (n=0)
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        boolean fin() { return d.signum() != 0; }
        boolean nan() { return d.signum() == 0 && n.signum() == 0; }
        public String toString() {
            if (!fin()) return nan() ? "nan" : n.signum() > 0 ? "inf" : "-inf";
            return d.equals(ONE) ? n.toString() : n + "/" + d;
        }
    }
    static final Q NAN = new Q(ZERO, ZERO), INF = new Q(ONE, ZERO), NINF = new Q(ONE.negate(), ZERO);
    static final Q Q0 = new Q(ZERO, ONE);

    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return NAN;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(ONE)) {
            // fast path: powers of two (dyadic numbers) need only shifts
            BigInteger g;
            if (d.bitCount() == 1) {
                if (n.signum() == 0) return Q0;
                int s = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
                return new Q(n.shiftRight(s), d.shiftRight(s));
            }
            g = n.gcd(d);
            if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new Q(n, d);
    }

    static final ConcurrentHashMap<UniqueString, Q> CACHE = new ConcurrentHashMap<>();
    static Q parse(String s) {
        switch (s) {
            case "inf": return INF;
            case "-inf": return NINF;
            case "nan": return NAN;
        }
        try {
            int i = s.indexOf('/');
            if (i < 0) return new Q(new BigInteger(s), ONE);
            return mk(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        } catch (NumberFormatException e) {
            return NAN;
        }
    }
    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
        if (!(v instanceof StringValue)) return NAN;
        UniqueString u = ((StringValue) v).val;
        Q r = CACHE.get(u);
        if (r == null) { r = parse(u.toString()); CACHE.put(u, r); }
        return r;
    }
    static Value v(Q r) {
        StringValue s = new StringValue(r.toString());
        CACHE.putIfAbsent(s.val, r);
        return s;
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ---- arithmetic on Q -------------------------------------------------------------
    static Q add(Q a, Q c) {
        if (a.nan() || c.nan()) return NAN;
        if (!a.fin()) return (!c.fin() && c.n.signum() != a.n.signum()) ? NAN : a;
        if (!c.fin()) return c;
        if (a.d.equals(c.d)) return mk(a.n.add(c.n), a.d);
        return mk(a.n.multiply(c.d).add(c.n.multiply(a.d)), a.d.multiply(c.d));
    }
    static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    static Q mul(Q a, Q c) {
        if (a.nan() || c.nan()) return NAN;
        if (!a.fin() || !c.fin()) {
            int s = a.n.signum() * c.n.signum();
            return s == 0 ? Q0 : s > 0 ? INF : NINF;   // 0 * inf = 0: endpoints of unbounded intervals
        }
        return mk(a.n.multiply(c.n), a.d.multiply(c.d));
    }
    static Q div(Q a, Q c) {
        if (a.nan() || c.nan()) return NAN;
        if (!c.fin()) return a.fin() ? Q0 : NAN;
        if (c.n.signum() == 0) return NAN;
        if (!a.fin()) return a.n.signum() * c.n.signum() > 0 ? INF : NINF;
        return mk(a.n.multiply(c.d), a.d.multiply(c.n));
    }
    /** -2 if unordered */
    static int cmp(Q a, Q c) {
        if (a.nan() || c.nan()) return -2;
        if (!a.fin()) return (!c.fin() && c.n.signum() == a.n.signum()) ? 0 : a.n.signum();
        if (!c.fin()) return -c.n.signum();
        int sa = a.n.signum(), sc = c.n.signum();
        if (sa != sc) return sa < sc ? -1 : 1;
        return a.n.multiply(c.d).compareTo(c.n.multiply(a.d));
    }
    static BigInteger floorDiv(BigInteger n, BigInteger d) {
        BigInteger[] r = n.divideAndRemainder(d);
        return r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
    }
    /** floor(log2 |a|) for finite a # 0 */
    static int ilog2(Q a) {
        BigInteger n = a.n.abs();
        int e = n.bitLength() - a.d.bitLength();
        // n/d in (2^(e-1), 2^(e+1))
        BigInteger l = e >= 0 ? n : n.shiftLeft(-e), r = e >= 0 ? a.d.shiftLeft(e) : a.d;
        return l.compareTo(r) >= 0 ? e : e - 1;
    }
    static Q pow2(int e) { return e >= 0 ? new Q(ONE.shiftLeft(e), ONE) : new Q(ONE, ONE.shiftLeft(-e)); }
    /** round to a multiple of 2^e; dir -1 down, +1 up, 0 nearest even */
    static Q toGrid(Q a, int e, int dir) {
        BigInteger n = a.n, d = a.d;
        if (e >= 0) d = d.shiftLeft(e); else n = n.shiftLeft(-e);
        BigInteger f = floorDiv(n, d), rem = n.subtract(f.multiply(d));
        if (rem.signum() != 0) {
            if (dir > 0) f = f.add(ONE);
            else if (dir == 0) {
                int c = rem.shiftLeft(1).compareTo(d);
                if (c > 0 || (c == 0 && f.testBit(0))) f = f.add(ONE);
            }
        }
        return e >= 0 ? new Q(f.shiftLeft(e), ONE) : mk(f, ONE.shiftLeft(-e));
    }
    static final Q DMAX = new Q(BigInteger.valueOf((1L << 53) - 1).shiftLeft(971), ONE);
    static final Q OVER = new Q(ONE.shiftLeft(1024).subtract(ONE.shiftLeft(970)), ONE);
    static Q f64(Q a, int dir) {
        if (!a.fin() || a.n.signum() == 0) return a;
        int e = Math.max(ilog2(a) - 52, -1074);
        if (cmp(a, DMAX) > 0) return dir < 0 ? DMAX : dir > 0 ? INF : cmp(a, OVER) < 0 ? DMAX : INF;
        if (cmp(a, neg(DMAX)) < 0) return dir > 0 ? neg(DMAX) : dir < 0 ? NINF : cmp(a, neg(OVER)) > 0 ? neg(DMAX) : NINF;
        return toGrid(a, e, dir);
    }
    static Q sig(Q a, int bits, int dir) {
        if (!a.fin() || a.n.signum() == 0) return a;
        return toGrid(a, ilog2(a) - bits + 1, dir);
    }

    // ---- operators of Rat.tla ----------------------------------------------------------
    public static Value RInt(Value a) { return v(q(a)); }
    public static Value RAdd(Value a, Value c) { return v(add(q(a), q(c))); }
    public static Value RSub(Value a, Value c) { return v(add(q(a), neg(q(c)))); }
    public static Value RMul(Value a, Value c) { return v(mul(q(a), q(c))); }
    public static Value RDiv(Value a, Value c) { return v(div(q(a), q(c))); }
    public static Value RNeg(Value a) { return v(neg(q(a))); }
    public static Value RAbs(Value a) { Q x = q(a); return v(x.n.signum() < 0 ? neg(x) : x); }
    public static Value RMin(Value a, Value c) { int s = cmp(q(a), q(c)); return s == -2 ? v(NAN) : s <= 0 ? v(q(a)) : v(q(c)); }
    public static Value RMax(Value a, Value c) { int s = cmp(q(a), q(c)); return s == -2 ? v(NAN) : s >= 0 ? v(q(a)) : v(q(c)); }
    public static Value RLt(Value a, Value c) { return b(cmp(q(a), q(c)) == -1); }
    public static Value RLe(Value a, Value c) { int s = cmp(q(a), q(c)); return b(s == -1 || s == 0); }
    public static Value REq(Value a, Value c) { return b(cmp(q(a), q(c)) == 0); }
    public static Value RFin(Value a) { return b(q(a).fin()); }
    public static Value RNan(Value a) { return b(q(a).nan()); }
    public static Value RSgn(Value a) { return IntValue.gen(q(a).n.signum()); }
    public static Value RPow(Value a, Value k) {
        Q x = q(a); int e = ((IntValue) k).val;
        if (!x.fin()) { Q r = new Q(ONE, ONE); for (int i = 0; i < e; i++) r = mul(r, x); return v(r); }
        return v(new Q(x.n.pow(e), x.d.pow(e)));
    }
    public static Value RFloor(Value a) { Q x = q(a); return v(x.fin() ? new Q(floorDiv(x.n, x.d), ONE) : x); }
    public static Value RCeil(Value a) { Q x = q(a); return v(x.fin() ? neg(new Q(floorDiv(x.n.negate(), x.d), ONE)) : x); }
    public static Value RIsInt(Value a) { Q x = q(a); return b(x.fin() && x.d.equals(ONE)); }
    public static Value RToInt(Value a) { return IntValue.gen(q(a).n.divide(q(a).d).intValueExact()); }
    public static Value REven(Value a) { return b(!q(a).n.testBit(0)); }
    public static Value RLog2(Value a) { Q x = q(a); return IntValue.gen(x.fin() && x.n.signum() != 0 ? ilog2(x) : -99999); }
    public static Value RPow2(Value e) { return v(pow2(((IntValue) e).val)); }
    public static Value F64Dn(Value a) { return v(f64(q(a), -1)); }
    public static Value F64Up(Value a) { return v(f64(q(a), 1)); }
    public static Value F64Nr(Value a) { return v(f64(q(a), 0)); }
    public static Value RDn(Value a, Value bits) { return v(sig(q(a), ((IntValue) bits).val, -1)); }
    public static Value RUp(Value a, Value bits) { return v(sig(q(a), ((IntValue) bits).val, 1)); }
    public static Value RGridDn(Value a, Value e) { Q x = q(a); return v(x.fin() ? toGrid(x, ((IntValue) e).val, -1) : x); }
    public static Value RGridUp(Value a, Value e) { Q x = q(a); return v(x.fin() ? toGrid(x, ((IntValue) e).val, 1) : x); }
    /** unit in the last place of the binary64 numbers around |a| */
    public static Value RUlp(Value a) {
        Q x = q(a);
        if (!x.fin()) return v(x);
        int e = x.n.signum() == 0 ? -1074 : Math.max(ilog2(x) - 52, -1074);
        return v(pow2(Math.min(e, 971)));
    }
    static Value[] elems(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        return t.elems;
    }
    public static Value RSum(Value s) {
        Q r = Q0;
        for (Value x : elems(s)) r = add(r, q(x));
        return v(r);
    }
    public static Value RDot(Value s, Value t) {
        Q r = Q0;
        Value[] x = elems(s), y = elems(t);
        for (int i = 0; i < x.length; i++) r = add(r, mul(q(x[i]), q(y[i])));
        return v(r);
    }
}
