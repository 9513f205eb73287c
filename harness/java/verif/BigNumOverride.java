package verif;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** The operators of module BigNum, on decimal strings. */
public final class BigNumOverride {
    private BigNumOverride() {}

    static BigInteger n(final Value v) { return new BigInteger(((StringValue) v).val.toString()); }
    static Value s(final BigInteger b) { return new StringValue(b.toString()); }
    static Value s(final String b) { return new StringValue(b); }

    @TLAPlusOperator(identifier = "BAdd", module = "BigNum", warn = false)
    public static Value add(final Value a, final Value b) { return s(n(a).add(n(b))); }

    @TLAPlusOperator(identifier = "BSub", module = "BigNum", warn = false)
    public static Value sub(final Value a, final Value b) { return s(n(a).subtract(n(b))); }

    @TLAPlusOperator(identifier = "BMul", module = "BigNum", warn = false)
    public static Value mul(final Value a, final Value b) { return s(n(a).multiply(n(b))); }

    @TLAPlusOperator(identifier = "BQuo", module = "BigNum", warn = false)
    public static Value quo(final Value a, final Value b) {
        final BigInteger d = n(b);
        if (d.signum() == 0) return s("0");
        final BigInteger[] qr = n(a).divideAndRemainder(d);
        if (qr[1].signum() != 0 && (qr[1].signum() != d.signum())) return s(qr[0].subtract(BigInteger.ONE));
        return s(qr[0]);
    }

    @TLAPlusOperator(identifier = "BMod", module = "BigNum", warn = false)
    public static Value mod(final Value a, final Value m) { return s(n(a).mod(n(m))); }

    @TLAPlusOperator(identifier = "BGcd", module = "BigNum", warn = false)
    public static Value gcd(final Value a, final Value b) { return s(n(a).gcd(n(b))); }

    @TLAPlusOperator(identifier = "BCmp", module = "BigNum", warn = false)
    public static Value cmp(final Value a, final Value b) { return IntValue.gen(n(a).compareTo(n(b))); }

    @TLAPlusOperator(identifier = "BBit", module = "BigNum", warn = false)
    public static Value bit(final Value a, final Value i) {
        return IntValue.gen(n(a).testBit(((IntValue) i).val) ? 1 : 0);
    }

    @TLAPlusOperator(identifier = "BBitLen", module = "BigNum", warn = false)
    public static Value bitLen(final Value a) { return IntValue.gen(n(a).bitLength()); }

    @TLAPlusOperator(identifier = "BOfInt", module = "BigNum", warn = false)
    public static Value ofInt(final Value i) { return s(Integer.toString(((IntValue) i).val)); }

    @TLAPlusOperator(identifier = "BToInt", module = "BigNum", warn = false)
    public static Value toInt(final Value a) { return IntValue.gen(n(a).intValueExact()); }

    @TLAPlusOperator(identifier = "BPowMod", module = "BigNum", warn = false)
    public static Value powMod(final Value a, final Value e, final Value m) {
        final BigInteger x = n(a), k = n(e), q = n(m);
        if (k.signum() < 0 && x.mod(q).signum() == 0) return s("0");
        return s(x.modPow(k, q));
    }

    @TLAPlusOperator(identifier = "BInvMod", module = "BigNum", warn = false)
    public static Value invMod(final Value a, final Value m) {
        final BigInteger q = n(m), x = n(a).mod(q);
        return x.signum() == 0 ? s("0") : s(x.modInverse(q));
    }

    @TLAPlusOperator(identifier = "MAdd", module = "BigNum", warn = false)
    public static Value madd(final Value a, final Value b, final Value m) { return s(n(a).add(n(b)).mod(n(m))); }

    @TLAPlusOperator(identifier = "MSub", module = "BigNum", warn = false)
    public static Value msub(final Value a, final Value b, final Value m) { return s(n(a).subtract(n(b)).mod(n(m))); }

    @TLAPlusOperator(identifier = "MMul", module = "BigNum", warn = false)
    public static Value mmul(final Value a, final Value b, final Value m) { return s(n(a).multiply(n(b)).mod(n(m))); }

    @TLAPlusOperator(identifier = "MDot", module = "BigNum", warn = false)
    public static Value mdot(final Value a, final Value b, final Value m) {
        final Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
        if (x.length != y.length) throw new IllegalArgumentException("MDot: lengths");
        BigInteger r = BigInteger.ZERO;
        for (int i = 0; i < x.length; i++) r = r.add(n(x[i]).multiply(n(y[i])));
        return s(r.mod(n(m)));
    }

    @TLAPlusOperator(identifier = "BHex", module = "BigNum", warn = false)
    public static Value hex(final Value a, final Value len) {
        final StringBuilder sb = new StringBuilder(n(a).toString(16));
        final int want = 2 * ((IntValue) len).val;
        while (sb.length() < want) sb.insert(0, '0');
        return s(sb.toString());
    }

    @TLAPlusOperator(identifier = "BOfHex", module = "BigNum", warn = false)
    public static Value ofHex(final Value a) {
        final String t = ((StringValue) a).val.toString();
        return s(t.isEmpty() ? BigInteger.ZERO : new BigInteger(t, 16));
    }

    @TLAPlusOperator(identifier = "BIsNum", module = "BigNum", warn = false)
    public static Value isNum(final Value a) {
        final String t = ((StringValue) a).val.toString();
        return t.matches("0|-?[1-9][0-9]*") ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "StrHash", module = "BigNum", warn = false)
    public static Value hash(final Value a) {
        try {
            final byte[] d = java.security.MessageDigest.getInstance("SHA-256")
                .digest(((StringValue) a).val.toString().getBytes("UTF-8"));
            return s(new BigInteger(1, java.util.Arrays.copyOf(d, 12)).toString(16));
        } catch (final Exception e) {
            throw new RuntimeException(e);
        }
    }
}
