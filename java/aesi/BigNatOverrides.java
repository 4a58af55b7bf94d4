package aesi;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Fast versions of the operators of BigNat.tla (same representation: little-endian
 *  base-256 digits, no most significant zeros). BigNatCheck.tla compares them with
 *  the TLA+ definitions. */
public class BigNatOverrides implements ITLCOverrides {
    private static final IntValue[] BYTES = new IntValue[256];
    static { for (int i = 0; i < 256; ++i) BYTES[i] = IntValue.gen(i); }
    private static final String M = "BigNat";

    @Override public Class<?>[] get() { return new Class<?>[] { BigNatOverrides.class }; }

    private static BigInteger in(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final int n = t.elems.length;
        if (n == 0) return BigInteger.ZERO;
        final byte[] mag = new byte[n];
        for (int i = 0; i < n; ++i) mag[n - 1 - i] = (byte) ((IntValue) t.elems[i]).val;
        return new BigInteger(1, mag);
    }
    private static Value out(final BigInteger b) {
        if (b.signum() < 0) throw new IllegalArgumentException("BigNat: negative result");
        final byte[] mag = b.toByteArray();
        int skip = 0;
        while (skip < mag.length && mag[skip] == 0) ++skip;
        final Value[] e = new Value[mag.length - skip];
        for (int i = 0; i < e.length; ++i) e[i] = BYTES[mag[mag.length - 1 - i] & 0xff];
        return new TupleValue(e);
    }
    private static int num(final Value v) { return ((IntValue) v).val; }

    @TLAPlusOperator(identifier = "FromInt", module = M, warn = false)
    public static Value fromInt(final Value n) { return out(BigInteger.valueOf(num(n))); }
    @TLAPlusOperator(identifier = "ToInt", module = M, warn = false)
    public static Value toInt(final Value a) { return IntValue.gen(in(a).intValueExact()); }
    @TLAPlusOperator(identifier = "Cmp", module = M, warn = false)
    public static Value cmp(final Value a, final Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    @TLAPlusOperator(identifier = "Add", module = M, warn = false)
    public static Value add(final Value a, final Value b) { return out(in(a).add(in(b))); }
    @TLAPlusOperator(identifier = "Sub", module = M, warn = false)
    public static Value sub(final Value a, final Value b) { return out(in(a).subtract(in(b))); }
    @TLAPlusOperator(identifier = "Mul", module = M, warn = false)
    public static Value mul(final Value a, final Value b) { return out(in(a).multiply(in(b))); }
    @TLAPlusOperator(identifier = "Div", module = M, warn = false)
    public static Value div(final Value a, final Value b) { return out(in(a).divide(in(b))); }
    @TLAPlusOperator(identifier = "Mod", module = M, warn = false)
    public static Value mod(final Value a, final Value b) { return out(in(a).mod(in(b))); }
    @TLAPlusOperator(identifier = "Pow2", module = M, warn = false)
    public static Value pow2(final Value k) { return out(BigInteger.ONE.shiftLeft(num(k))); }
    @TLAPlusOperator(identifier = "LowBits", module = M, warn = false)
    public static Value lowBits(final Value a, final Value k) {
        return out(in(a).and(BigInteger.ONE.shiftLeft(num(k)).subtract(BigInteger.ONE)));
    }
    @TLAPlusOperator(identifier = "Shl", module = M, warn = false)
    public static Value shl(final Value a, final Value k) { return out(in(a).shiftLeft(num(k))); }
    @TLAPlusOperator(identifier = "Shr", module = M, warn = false)
    public static Value shr(final Value a, final Value k) { return out(in(a).shiftRight(num(k))); }
    @TLAPlusOperator(identifier = "BitLen", module = M, warn = false)
    public static Value bitLen(final Value a) { return IntValue.gen(in(a).bitLength()); }
    @TLAPlusOperator(identifier = "Gcd", module = M, warn = false)
    public static Value gcd(final Value a, final Value b) { return out(in(a).gcd(in(b))); }
    @TLAPlusOperator(identifier = "PowMod", module = M, warn = false)
    public static Value powMod(final Value b, final Value e, final Value m) { return out(in(b).modPow(in(e), in(m))); }
    @TLAPlusOperator(identifier = "Sqrt", module = M, warn = false)
    public static Value sqrt(final Value a) { return out(in(a).sqrt()); }
    @TLAPlusOperator(identifier = "BitAnd", module = M, warn = false)
    public static Value bitAnd(final Value a, final Value b) { return out(in(a).and(in(b))); }
    @TLAPlusOperator(identifier = "BitOr", module = M, warn = false)
    public static Value bitOr(final Value a, final Value b) { return out(in(a).or(in(b))); }
    @TLAPlusOperator(identifier = "BitXor", module = M, warn = false)
    public static Value bitXor(final Value a, final Value b) { return out(in(a).xor(in(b))); }
    @TLAPlusOperator(identifier = "Digits", module = M, warn = false)
    public static Value digits(final Value a, final Value base) {
        final BigInteger n = in(a);
        if (n.signum() == 0) return new TupleValue(new Value[0]);
        final String s = n.toString(num(base));
        final Value[] e = new Value[s.length()];
        for (int i = 0; i < e.length; ++i) e[i] = BYTES[Character.digit(s.charAt(i), 36)];
        return new TupleValue(e);
    }
    @TLAPlusOperator(identifier = "FromDigits", module = M, warn = false)
    public static Value fromDigits(final Value ds, final Value base) {
        final TupleValue t = (TupleValue) ds.toTuple();
        if (t.elems.length == 0) return out(BigInteger.ZERO);
        if (num(base) == 256) {
            final byte[] be = new byte[t.elems.length];
            for (int i = 0; i < be.length; ++i) be[i] = (byte) num(t.elems[i]);
            return out(new BigInteger(1, be));
        }
        if (num(base) > 36) {
            BigInteger acc = BigInteger.ZERO;
            for (final Value v : t.elems) acc = acc.multiply(BigInteger.valueOf(num(base))).add(BigInteger.valueOf(num(v)));
            return out(acc);
        }
        final StringBuilder sb = new StringBuilder(t.elems.length);
        for (final Value v : t.elems) sb.append(Character.forDigit(((IntValue) v).val, num(base)));
        return out(new BigInteger(sb.toString(), num(base)));
    }
    @TLAPlusOperator(identifier = "FromHex", module = M, warn = false)
    public static Value fromHex(final Value s) {
        final String h = ((StringValue) s).val.toString();
        return out(h.isEmpty() ? BigInteger.ZERO : new BigInteger(h, 16));
    }
}
