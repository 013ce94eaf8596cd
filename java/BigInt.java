import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.IValue;

/** TLC module override of spec/BigInt.tla: see there. */
public class BigInt {
    private static final BigInteger B16 = BigInteger.valueOf(10_000_000_000_000_000L);
    private static final Value ZERO = new TupleValue(new Value[] { IntValue.gen(0) });
    private static final int NPOW = 20000;
    private static final BigInteger[] POW = new BigInteger[NPOW];

    static BigInteger p10(int n) {
        if (n < 0) throw new RuntimeException("BigInt: negative power of ten " + n);
        if (n > 3_000_000) throw new RuntimeException("BigInt: huge power of ten " + n);
        if (n >= NPOW) return BigInteger.TEN.pow(n);
        BigInteger r = POW[n];
        if (r == null) POW[n] = r = BigInteger.TEN.pow(n);
        return r;
    }

    static int i(Value v) { return ((IntValue) v).val; }

    static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        return ((TupleValue) v.toTuple()).elems;
    }

    static BigInteger in(Value v) {
        Value[] e = elems(v);
        int s = i(e[0]);
        if (s == 0) return BigInteger.ZERO;
        int n = e.length - 1;
        // the first, most significant, chunk has n % 4 limbs if that isn't 0
        int k = n;
        long c = 0;
        BigInteger r = BigInteger.ZERO;
        if (n > 400) {
            StringBuilder sb = new StringBuilder(4 * n + 1);
            for (; k > 0; k--) {
                int l = i(e[k]);
                sb.append((char) ('0' + l / 1000)).append((char) ('0' + l / 100 % 10))
                  .append((char) ('0' + l / 10 % 10)).append((char) ('0' + l % 10));
            }
            r = new BigInteger(sb.toString());
        } else {
            int first = n % 4;
            for (int j = 0; j < first; j++, k--) c = c * 10000 + i(e[k]);
            r = BigInteger.valueOf(c);
            while (k > 0) {
                c = 0;
                for (int j = 0; j < 4; j++, k--) c = c * 10000 + i(e[k]);
                r = r.signum() == 0 ? BigInteger.valueOf(c) : r.multiply(B16).add(BigInteger.valueOf(c));
            }
        }
        return s < 0 ? r.negate() : r;
    }

    static Value out(BigInteger b) {
        int s = b.signum();
        if (s == 0) return ZERO;
        if (s < 0) b = b.negate();
        String t = b.toString();
        int n = (t.length() + 3) / 4;
        Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(s);
        int end = t.length();
        for (int k = 1; k <= n; k++) {
            int st = Math.max(0, end - 4), l = 0;
            for (int j = st; j < end; j++) l = l * 10 + (t.charAt(j) - '0');
            e[k] = IntValue.gen(l);
            end = st;
        }
        return new TupleValue(e);
    }

    static int digits(Value a) {
        Value[] e = elems(a);
        if (e.length == 1) return 1;
        int l = i(e[e.length - 1]);
        return 4 * (e.length - 2) + (l >= 1000 ? 4 : l >= 100 ? 3 : l >= 10 ? 2 : 1);
    }

    public static Value BI(IntValue v) { return out(BigInteger.valueOf(v.val)); }
    public static Value BInt(Value a) { return IntValue.gen(in(a).intValueExact()); }
    public static Value BSgn(Value a) { return elems(a)[0]; }
    public static Value BNeg(Value a) { return out(in(a).negate()); }
    public static Value BAbs(Value a) { return out(in(a).abs()); }
    public static Value BCmp(Value a, Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    public static Value BAdd(Value a, Value b) { return out(in(a).add(in(b))); }
    public static Value BSub(Value a, Value b) { return out(in(a).subtract(in(b))); }
    public static Value BMul(Value a, Value b) { return out(in(a).multiply(in(b))); }
    public static Value BQuo(Value a, Value b) { return out(in(a).divide(in(b))); }
    public static Value BRem(Value a, Value b) { return out(in(a).remainder(in(b))); }
    public static Value BFloor(Value a, Value b) {
        BigInteger[] qr = in(a).divideAndRemainder(in(b));
        return out(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
    }
    public static Value BPow10(IntValue n) { return out(p10(n.val)); }
    public static Value BShift(Value a, IntValue n) { return n.val == 0 || digits(a) == 1 && in(a).signum() == 0 ? a : out(in(a).multiply(p10(n.val))); }
    public static Value BDrop(Value a, IntValue n) { return n.val == 0 ? a : n.val >= digits(a) ? ZERO : out(in(a).divide(p10(n.val))); }
    public static Value BDigits(Value a) { return IntValue.gen(digits(a)); }
    public static Value BTrail(Value a) {
        Value[] e = elems(a);
        int n = 0, k = 1;
        while (i(e[k]) == 0) { k++; n += 4; }
        for (int l = i(e[k]); l % 10 == 0; l /= 10) n++;
        return IntValue.gen(n);
    }
    public static Value BPow(Value a, IntValue n) { return out(in(a).pow(n.val)); }
    public static Value BSqrt(Value a) { return out(in(a).sqrt()); }
    public static Value BOdd(Value a) {
        Value[] e = elems(a);
        return e.length > 1 && i(e[1]) % 2 == 1 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value BBits(Value a) { return IntValue.gen(in(a).abs().bitLength()); }
    public static Value BDec(Value a) {
        String t = in(a).abs().toString();
        Value[] e = new Value[t.length()];
        for (int k = 0; k < e.length; k++) e[k] = IntValue.gen(t.charAt(k));
        return new TupleValue(e);
    }
    public static Value BParse(Value s) {
        Value[] e = elems(s);
        StringBuilder sb = new StringBuilder(e.length + 1).append('0');
        for (Value v : e) sb.append((char) i(v));
        return out(new BigInteger(sb.toString()));
    }
}
