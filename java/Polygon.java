// TLC module override for spec/Polygon.tla: the corners of a set of rows, by exact integer
// determinants.  MC_Polygon and MC_Orthant compare it with the TLA+ definition.
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

public final class Polygon {
    static BigInteger[][] rows(Value C, int m) {
        ValueEnumeration e = ((Enumerable) C).elements();
        List<BigInteger[]> out = new ArrayList<>();
        for (Value v = e.nextElement(); v != null; v = e.nextElement()) {
            Value[] t = ((TupleValue) v.toTuple()).elems;
            if (t.length != m + 1) throw new RuntimeException("a row of " + t.length + " numbers");
            Rat.Q[] q = new Rat.Q[m + 1];
            BigInteger l = BigInteger.ONE;
            for (int j = 0; j <= m; j++) {
                q[j] = Rat.q(t[j]);
                if (!q[j].fin()) throw new RuntimeException("a row that is not finite");
                l = l.divide(l.gcd(q[j].d)).multiply(q[j].d);
            }
            BigInteger[] r = new BigInteger[m + 1];
            for (int j = 0; j <= m; j++) r[j] = q[j].n.multiply(l.divide(q[j].d));
            out.add(r);
        }
        return out.toArray(new BigInteger[0][]);
    }
    static BigInteger det2(BigInteger a, BigInteger b, BigInteger c, BigInteger d) { return a.multiply(d).subtract(b.multiply(c)); }
    static BigInteger det3(BigInteger[] r, BigInteger[] s, BigInteger[] t, int i, int j, int k) {
        return r[i].multiply(det2(s[j], s[k], t[j], t[k])).subtract(r[j].multiply(det2(s[i], s[k], t[i], t[k])))
               .add(r[k].multiply(det2(s[i], s[j], t[i], t[j])));
    }
    // the point p / d, d # 0, if it satisfies every row
    static void keep(BigInteger[][] R, BigInteger[] p, BigInteger d, List<Value> out, Set<String> seen) {
        if (d.signum() < 0) { d = d.negate(); for (int j = 0; j < p.length; j++) p[j] = p[j].negate(); }
        for (BigInteger[] r : R) {
            BigInteger s = r[p.length].multiply(d).negate();
            for (int j = 0; j < p.length; j++) s = s.add(r[j].multiply(p[j]));
            if (s.signum() < 0) return;
        }
        Value[] x = new Value[p.length];
        StringBuilder key = new StringBuilder();
        for (int j = 0; j < p.length; j++) {
            Rat.Q q = Rat.mk(p[j], d);
            x[j] = Rat.v(q);
            key.append(q).append(' ');
        }
        if (seen.add(key.toString())) out.add(new TupleValue(x));
    }
    public static Value Corners2(final Value C) {
        BigInteger[][] R = rows(C, 2);
        List<Value> out = new ArrayList<>();
        Set<String> seen = new HashSet<>();
        for (int i = 0; i < R.length; i++)
            for (int k = i + 1; k < R.length; k++) {
                BigInteger[] c = R[i], e = R[k];
                BigInteger d = det2(c[0], c[1], e[0], e[1]);
                if (d.signum() != 0) keep(R, new BigInteger[]{det2(c[2], c[1], e[2], e[1]), det2(c[0], c[2], e[0], e[2])}, d, out, seen);
            }
        return new SetEnumValue(out.toArray(new Value[0]), false);
    }
    public static Value Corners3(final Value C) {
        BigInteger[][] R = rows(C, 3);
        List<Value> out = new ArrayList<>();
        Set<String> seen = new HashSet<>();
        for (int i = 0; i < R.length; i++)
            for (int j = i + 1; j < R.length; j++)
                for (int k = j + 1; k < R.length; k++) {
                    BigInteger[] r = R[i], s = R[j], t = R[k];
                    BigInteger d = det3(r, s, t, 0, 1, 2);
                    if (d.signum() != 0)
                        keep(R, new BigInteger[]{det3(r, s, t, 3, 1, 2), det3(r, s, t, 0, 3, 2), det3(r, s, t, 0, 1, 3)}, d, out, seen);
                }
        return new SetEnumValue(out.toArray(new Value[0]), false);
    }
}
