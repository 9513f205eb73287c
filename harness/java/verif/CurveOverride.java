package verif;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * Faster evaluation of the curve and tower operations of modules Curve and
 * Tower.  Both modules also define them in TLA+ (the operators ending in Def)
 * and assume that the two agree on sample points.
 */
public final class CurveOverride {
    private CurveOverride() {}
    static final BigInteger P = new BigInteger("21888242871839275222246405745257275088696311157297823662689037894645226208583");
    static final BigInteger TWO = BigInteger.valueOf(2), THREE = BigInteger.valueOf(3);

    static Value[] el(final Value v) { return ((TupleValue) v.toTuple()).elems; }
    static BigInteger n(final Value v) { return BigNumOverride.n(v); }
    static Value tup(final Value... v) { return new TupleValue(v); }
    static Value num(final BigInteger b) { return BigNumOverride.s(b); }

    // ------------------------------------------------------------------ Fp2
    static final class F2 {
        final BigInteger im, re;
        F2(final BigInteger im, final BigInteger re) { this.im = im; this.re = re; }
        static F2 of(final Value v) { final Value[] e = el(v); return new F2(n(e[0]), n(e[1])); }
        Value value() { return tup(num(im), num(re)); }
        F2 add(final F2 b) { return new F2(im.add(b.im).mod(P), re.add(b.re).mod(P)); }
        F2 sub(final F2 b) { return new F2(im.subtract(b.im).mod(P), re.subtract(b.re).mod(P)); }
        F2 mul(final F2 b) { return new F2(im.multiply(b.re).add(re.multiply(b.im)).mod(P), re.multiply(b.re).subtract(im.multiply(b.im)).mod(P)); }
        F2 times(final int k) { return new F2(im.multiply(BigInteger.valueOf(k)).mod(P), re.multiply(BigInteger.valueOf(k)).mod(P)); }
        F2 inv() {
            final BigInteger d = im.multiply(im).add(re.multiply(re)).mod(P);
            if (d.signum() == 0) return new F2(BigInteger.ZERO, BigInteger.ZERO);
            final BigInteger i = d.modInverse(P);
            return new F2(im.negate().multiply(i).mod(P), re.multiply(i).mod(P));
        }
        boolean zero() { return im.signum() == 0 && re.signum() == 0; }
        boolean same(final F2 b) { return im.equals(b.im) && re.equals(b.re); }
    }

    @TLAPlusOperator(identifier = "F2Mul", module = "Curve", warn = false)
    public static Value f2mul(final Value a, final Value b) { return F2.of(a).mul(F2.of(b)).value(); }

    // ------------------------------------------------------------------- G1
    static BigInteger[] g1(final Value v) {
        final Value[] a = el(v);
        return a.length == 0 ? null : new BigInteger[] {n(a[0]), n(a[1])};
    }
    static Value g1(final BigInteger[] p) { return p == null ? tup() : tup(num(p[0]), num(p[1])); }
    static BigInteger[] plus(final BigInteger[] a, final BigInteger[] b) {
        if (a == null) return b;
        if (b == null) return a;
        final BigInteger x = a[0], y = a[1], u = b[0], v = b[1];
        final BigInteger l;
        if (!x.equals(u)) l = v.subtract(y).multiply(u.subtract(x).mod(P).modInverse(P)).mod(P);
        else if (!y.equals(v) || y.signum() == 0) return null;
        else l = THREE.multiply(x).multiply(x).multiply(y.add(y).mod(P).modInverse(P)).mod(P);
        final BigInteger w = l.multiply(l).subtract(x).subtract(u).mod(P);
        return new BigInteger[] {w, l.multiply(x.subtract(w)).subtract(y).mod(P)};
    }
    @TLAPlusOperator(identifier = "G1Add", module = "Curve", warn = false)
    public static Value g1add(final Value p, final Value q) { return g1(plus(g1(p), g1(q))); }
    @TLAPlusOperator(identifier = "G1Times", module = "Curve", warn = false)
    public static Value g1times(final Value p, final Value k) {
        final BigInteger e = n(k);
        final BigInteger[] a = g1(p);
        BigInteger[] r = null;
        for (int i = e.bitLength() - 1; i >= 0; i--) {
            r = plus(r, r);
            if (e.testBit(i)) r = plus(r, a);
        }
        return g1(r);
    }

    // ------------------------------------------------------------------- G2
    static F2[] g2(final Value v) {
        final Value[] a = el(v);
        return a.length == 0 ? null : new F2[] {F2.of(a[0]), F2.of(a[1])};
    }
    static Value g2(final F2[] p) { return p == null ? tup() : tup(p[0].value(), p[1].value()); }
    static F2[] plus(final F2[] a, final F2[] b) {
        if (a == null) return b;
        if (b == null) return a;
        final F2 x = a[0], y = a[1], u = b[0], v = b[1];
        final F2 l;
        if (!x.same(u)) l = v.sub(y).mul(u.sub(x).inv());
        else if (!y.same(v) || y.zero()) return null;
        else l = x.mul(x).times(3).mul(y.add(y).inv());
        final F2 w = l.mul(l).sub(x).sub(u);
        return new F2[] {w, l.mul(x.sub(w)).sub(y)};
    }
    @TLAPlusOperator(identifier = "G2Add", module = "Curve", warn = false)
    public static Value g2add(final Value p, final Value q) { return g2(plus(g2(p), g2(q))); }
    @TLAPlusOperator(identifier = "G2Times", module = "Curve", warn = false)
    public static Value g2times(final Value p, final Value k) {
        final BigInteger e = n(k);
        final F2[] a = g2(p);
        F2[] r = null;
        for (int i = e.bitLength() - 1; i >= 0; i--) {
            r = plus(r, r);
            if (e.testBit(i)) r = plus(r, a);
        }
        return g2(r);
    }

    // ----------------------------------------------------------------- Fp12
    static final BigInteger NINE = BigInteger.valueOf(9);
    static F2[] f12(final Value p) {
        final Value[] a = el(p);
        final F2[] x = new F2[6];
        for (int i = 0; i < 6; i++) x[i] = F2.of(a[i]);
        return x;
    }
    static Value f12(final F2[] x) {
        final Value[] out = new Value[6];
        for (int i = 0; i < 6; i++) out[i] = x[i].value();
        return new TupleValue(out);
    }
    static F2[] mul(final F2[] x, final F2[] y) {
        final BigInteger[] re = new BigInteger[11], im = new BigInteger[11];
        for (int k = 0; k < 11; k++) re[k] = im[k] = BigInteger.ZERO;
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
            re[i + j] = re[i + j].add(x[i].re.multiply(y[j].re)).subtract(x[i].im.multiply(y[j].im));
            im[i + j] = im[i + j].add(x[i].re.multiply(y[j].im)).add(x[i].im.multiply(y[j].re));
        }
        final F2[] out = new F2[6];
        for (int k = 0; k < 6; k++) {
            BigInteger r = re[k], m = im[k];
            if (k < 5) { // w^6 = 9 + i
                r = r.add(NINE.multiply(re[k + 6])).subtract(im[k + 6]);
                m = m.add(NINE.multiply(im[k + 6])).add(re[k + 6]);
            }
            out[k] = new F2(m.mod(P), r.mod(P));
        }
        return out;
    }
    @TLAPlusOperator(identifier = "F12Mul", module = "Tower", warn = false)
    public static Value f12mul(final Value p, final Value q) { return f12(mul(f12(p), f12(q))); }
    @TLAPlusOperator(identifier = "F12Times", module = "Tower", warn = false)
    public static Value f12times(final Value p, final Value k) {
        final BigInteger e = n(k);
        final F2[] a = f12(p);
        final F2 o = new F2(BigInteger.ZERO, BigInteger.ZERO);
        F2[] r = {new F2(BigInteger.ZERO, BigInteger.ONE), o, o, o, o, o};
        for (int i = e.bitLength() - 1; i >= 0; i--) {
            r = mul(r, r);
            if (e.testBit(i)) r = mul(r, a);
        }
        return f12(r);
    }
}
