import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC implementation of the operators of BigZ.tla on java.math.BigInteger. */
public class BigZ {
  private static BigInteger g(Value v) { return new BigInteger(((StringValue) v).getVal().toString()); }
  private static Value s(BigInteger b) { return new StringValue(b.toString()); }
  private static int i(Value v) { return ((IntValue) v).val; }
  public static Value Z(Value n) { return new StringValue(Integer.toString(i(n))); }
  public static Value ZInt(Value a) { return IntValue.gen(g(a).intValueExact()); }
  public static Value ZAdd(Value a, Value b) { return s(g(a).add(g(b))); }
  public static Value ZSub(Value a, Value b) { return s(g(a).subtract(g(b))); }
  public static Value ZMul(Value a, Value b) { return s(g(a).multiply(g(b))); }
  public static Value ZNeg(Value a) { return s(g(a).negate()); }
  public static Value ZAbs(Value a) { return s(g(a).abs()); }
  public static Value ZCmp(Value a, Value b) { return IntValue.gen(g(a).compareTo(g(b))); }
  public static Value ZSgn(Value a) { return IntValue.gen(g(a).signum()); }
  private static BigInteger[] dm(BigInteger a, BigInteger b) {
    BigInteger[] r = a.divideAndRemainder(b);
    if (r[1].signum() != 0 && r[1].signum() != b.signum()) {
      r[0] = r[0].subtract(BigInteger.ONE);
      r[1] = r[1].add(b);
    }
    return r;
  }
  public static Value ZDiv(Value a, Value b) { return s(dm(g(a), g(b))[0]); }
  public static Value ZMod(Value a, Value b) { return s(dm(g(a), g(b))[1]); }
  public static Value ZGcd(Value a, Value b) { return s(g(a).gcd(g(b))); }
  public static Value ZPow(Value a, Value n) { return s(g(a).pow(i(n))); }
  public static Value ZShl(Value a, Value n) { return s(g(a).shiftLeft(i(n))); }
  public static Value ZIsqrt(Value a) { return s(g(a).sqrt()); }
  public static Value ZBits(Value a) { return IntValue.gen(g(a).abs().bitLength()); }
  public static Value ZInvMod(Value b, Value m) { 
    BigInteger mm = g(m).abs();
    if (mm.equals(BigInteger.ONE)) return s(BigInteger.ZERO);
    return s(g(b).modInverse(mm)); }
  public static Value ZPowMod(Value b, Value e, Value m) { return s(g(b).modPow(g(e), g(m).abs())); }
  public static Value ZIsPrime(Value a) { return g(a).signum() > 0 && g(a).isProbablePrime(120) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value IsZ(Value v) {
    if (!(v instanceof StringValue)) return BoolValue.ValFalse;
    String t = ((StringValue) v).getVal().toString();
    try { return new BigInteger(t).toString().equals(t) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    catch (NumberFormatException e) { return BoolValue.ValFalse; }
  }
}
