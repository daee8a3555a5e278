// TLC module override for module Z (spec/Z.tla): the operators of Z, on values written as canonical signed
// hexadecimal strings, evaluated with java.math.BigInteger.  Z.tla gives the same operators by definitions in
// plain TLA+ (module ZDef); spec/ZCheck.tla has TLC compare the two.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Z {
    // conversions in linear time (BigInteger's own are quadratic)
    private static BigInteger b(Value v) {
        String t = str(v); int k = t.charAt(0) == '-' ? 1 : 0, n = t.length() - k;
        if (n == 0) throw new NumberFormatException("no digits");
        byte[] a = new byte[(n + 1) / 2];
        for (int j = 0; j < n; j++) {
            int d = Character.digit(t.charAt(t.length() - 1 - j), 16);
            if (d < 0) throw new NumberFormatException(t);
            a[a.length - 1 - j / 2] |= d << 4 * (j % 2);
        }
        return new BigInteger(k == 1 ? -1 : 1, a);
    }
    private static String str(Value v) { return ((StringValue) v).val.toString(); }
    private static final String H = "0123456789abcdef";
    private static void hex(StringBuilder sb, byte c) { sb.append(H.charAt(c >> 4 & 15)).append(H.charAt(c & 15)); }
    private static Value s(BigInteger x) {
        if (x.signum() == 0) return new StringValue("0");
        byte[] a = x.abs().toByteArray(); StringBuilder sb = new StringBuilder(2 * a.length);
        for (byte c : a) hex(sb, c);
        int z = 0; while (sb.charAt(z) == '0') z++;
        return new StringValue((x.signum() < 0 ? "-" : "") + sb.substring(z));
    }
    private static int i(Value v) { return ((IntValue) v).val; }
    private static Value bool(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value ZAdd(Value x, Value y) { return s(b(x).add(b(y))); }
    public static Value ZSub(Value x, Value y) { return s(b(x).subtract(b(y))); }
    public static Value ZMul(Value x, Value y) { return s(b(x).multiply(b(y))); }
    public static Value ZQuo(Value x, Value y) { return s(b(x).divide(b(y))); }
    public static Value ZRem(Value x, Value y) { return s(b(x).remainder(b(y))); }
    public static Value ZAnd(Value x, Value y) { return s(b(x).and(b(y))); }
    public static Value ZOr(Value x, Value y) { return s(b(x).or(b(y))); }
    public static Value ZXor(Value x, Value y) { return s(b(x).xor(b(y))); }
    public static Value ZNot(Value x) { return s(b(x).not()); }
    public static Value ZNeg(Value x) { return s(b(x).negate()); }
    public static Value ZAbs(Value x) { return s(b(x).abs()); }
    public static Value ZShl(Value x, Value n) { return s(b(x).shiftLeft(i(n))); }
    public static Value ZShr(Value x, Value n) { return s(b(x).shiftRight(i(n))); }
    public static Value ZPow(Value x, Value n) { return s(b(x).pow(i(n))); }
    public static Value ZGcd(Value x, Value y) { return s(b(x).gcd(b(y))); }
    public static Value ZCmp(Value x, Value y) { return IntValue.gen(Integer.signum(b(x).compareTo(b(y)))); }
    public static Value ZOfInt(Value n) { return s(BigInteger.valueOf(i(n))); }
    public static Value ZToInt(Value x) { return IntValue.gen(b(x).intValueExact()); }
    public static Value ZFact(Value n) {
        BigInteger r = BigInteger.ONE;
        for (int k = 2, m = b(n).intValueExact(); k <= m; k++) r = r.multiply(BigInteger.valueOf(k));
        return s(r);
    }
    public static Value ZBitLen(Value x) { return IntValue.gen(b(x).abs().bitLength()); }
    public static Value ZIsCanonical(Value x) {
        String t = str(x); int k = 0;
        if (t.equals("0")) return bool(true);
        if (t.startsWith("-")) k = 1;
        if (t.length() == k || t.charAt(k) == '0') return bool(false);
        for (; k < t.length(); k++) { char c = t.charAt(k); if (!(c >= '0' && c <= '9' || c >= 'a' && c <= 'f')) return bool(false); }
        return bool(true);
    }
    // value of the n low bits, read as two's complement (signed) or as a natural number
    public static Value ZLow(Value x, Value n, Value signed) {
        BigInteger r = b(x).and(BigInteger.ONE.shiftLeft(i(n)).subtract(BigInteger.ONE));
        if (((BoolValue) signed).val && r.testBit(i(n) - 1)) r = r.subtract(BigInteger.ONE.shiftLeft(i(n)));
        return s(r);
    }
    // the k-th 32-bit block of the infinite two's complement representation
    public static Value ZWord(Value x, Value k) { return s(b(x).shiftRight(32 * i(k)).and(BigInteger.valueOf(0xffffffffL))); }
    // all bits up to the highest one inverted in the magnitude, the sign kept
    public static Value ZNotBits(Value x) {
        BigInteger v = b(x), m = v.abs();
        m = m.xor(BigInteger.ONE.shiftLeft(m.bitLength()).subtract(BigInteger.ONE));
        return s(v.signum() < 0 ? m.negate() : m);
    }
    // "<sign>" + digits in a radix -> value, or "" if the text is not digits only
    public static Value ZParse(Value t, Value radix) {
        String u = str(t); int r = i(radix), k = 0, n = u.length(); boolean neg = false;
        if (k < n && (u.charAt(k) == '+' || u.charAt(k) == '-')) { neg = u.charAt(k) == '-'; k++; }
        if (k == n) return new StringValue("");
        for (int j = k; j < n; j++) { char c = u.charAt(j); if (c >= 128 || Character.digit(c, r) < 0) return new StringValue(""); }
        BigInteger v = new BigInteger(u.substring(k), r); // quadratic, but texts are short
        return s(neg ? v.negate() : v);
    }
    public static Value ZFormat(Value x, Value radix) { return new StringValue(b(x).toString(i(radix))); }
    private static byte[] unhex(String h) {
        byte[] r = new byte[h.length() / 2];
        for (int k = 0; k < r.length; k++) r[k] = (byte) (Character.digit(h.charAt(2 * k), 16) << 4 | Character.digit(h.charAt(2 * k + 1), 16));
        return r;
    }
    // a byte string (two hexadecimal digits per byte), two's complement, in either byte order
    public static Value ZOfBytes(Value h, Value little) {
        byte[] a = unhex(str(h));
        if (a.length == 0) return new StringValue("0");
        if (((BoolValue) little).val) for (int k = 0, j = a.length - 1; k < j; k++, j--) { byte c = a[k]; a[k] = a[j]; a[j] = c; }
        return s(new BigInteger(a));
    }
    // the first max bytes of the magnitude, least significant first, as a byte string
    public static Value ZMagBytes(Value x, Value max) {
        BigInteger m = b(x).abs(); StringBuilder sb = new StringBuilder();
        if (m.signum() == 0) return new StringValue("");
        byte[] a = m.toByteArray(); int hi = a[0] == 0 ? 1 : 0, lim = i(max);
        for (int k = a.length - 1; k >= hi && lim > 0; k--, lim--) hex(sb, a[k]);
        return new StringValue(sb.toString());
    }
    public static Value StrLen(Value x) { return IntValue.gen(str(x).length()); }
    // the text as a sequence of one-character strings
    public static Value Chars(Value x) {
        String t = str(x); Value[] r = new Value[t.length()];
        for (int k = 0; k < r.length; k++) r[k] = new StringValue(t.substring(k, k + 1));
        return new TupleValue(r);
    }
}
