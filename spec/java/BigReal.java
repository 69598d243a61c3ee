import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC implementation of the operators of BigReal.tla: floors of 2^n times a real function, by enclosure
    at increasing working precision until both ends agree. */
public class BigReal {
  static final BigInteger O = BigInteger.ONE, ZR = BigInteger.ZERO;
  static BigInteger g(Value v) { return new BigInteger(((StringValue) v).getVal().toString()); }
  static Value s(BigInteger b) { return new StringValue(b.toString()); }
  static int i(Value v) { return ((IntValue) v).val; }
  static BigInteger fdiv(BigInteger a, BigInteger b) {
    BigInteger[] r = a.divideAndRemainder(b);
    return r[1].signum() != 0 && (r[1].signum() != b.signum()) ? r[0].subtract(O) : r[0];
  }
  static BigInteger cdiv(BigInteger a, BigInteger b) { return fdiv(a.negate(), b).negate(); }
  static BigInteger fsh(BigInteger a, int k) { return a.shiftRight(k); }
  static BigInteger csh(BigInteger a, int k) { return a.negate().shiftRight(k).negate(); }
  /** [lo, hi] / 2^w, non-negative unless said otherwise */
  static BigInteger[] mul(BigInteger[] a, BigInteger[] b, int w) {
    BigInteger[] c = { a[0].multiply(b[0]), a[0].multiply(b[1]), a[1].multiply(b[0]), a[1].multiply(b[1]) };
    BigInteger lo = c[0], hi = c[0];
    for (BigInteger x : c) { lo = lo.min(x); hi = hi.max(x); }
    return new BigInteger[] { fsh(lo, w), csh(hi, w) };
  }
  static BigInteger[] rat(BigInteger n, BigInteger d, int w) {
    BigInteger m = n.shiftLeft(w);
    return new BigInteger[] { fdiv(m, d), cdiv(m, d) };
  }
  static BigInteger[] exp(BigInteger n, BigInteger d, int w) {
    // argument n/d, reduced by 2^sh below 2^-8
    int sh = Math.max(0, n.abs().divide(d).bitLength() + 8);
    int ww = w + sh + 32;
    BigInteger[] x = rat(n, d.shiftLeft(sh), ww);
    BigInteger one = O.shiftLeft(ww);
    BigInteger[] sum = { one, one }, t = { one, one };
    int j = 1;
    for (;; j++) {
      t = mul(t, x, ww);
      t = new BigInteger[] { fdiv(t[0], BigInteger.valueOf(j)), cdiv(t[1], BigInteger.valueOf(j)) };
      sum = new BigInteger[] { sum[0].add(t[0]), sum[1].add(t[1]) };
      if (t[0].abs().max(t[1].abs()).compareTo(BigInteger.TWO) <= 0) break;
    }
    // the remaining terms are below twice the last bound
    sum = new BigInteger[] { sum[0].subtract(BigInteger.valueOf(8)), sum[1].add(BigInteger.valueOf(8)) };
    for (int q = 0; q < sh; q++) sum = mul(sum, sum, ww);
    return new BigInteger[] { fsh(sum[0], ww - w), csh(sum[1], ww - w) };
  }
  /** 2*atanh(n/d), |n/d| <= 1/3 */
  static BigInteger[] atanh2(BigInteger n, BigInteger d, int w) {
    int ww = w + 32;
    BigInteger[] x = rat(n, d, ww);
    BigInteger[] x2 = mul(x, x, ww), p = x, sum = { ZR, ZR };
    for (int j = 1;; j += 2) {
      BigInteger k = BigInteger.valueOf(j);
      sum = new BigInteger[] { sum[0].add(fdiv(p[0], k)), sum[1].add(cdiv(p[1], k)) };
      p = mul(p, x2, ww);
      if (p[0].abs().max(p[1].abs()).compareTo(BigInteger.TWO) <= 0) break;
    }
    sum = new BigInteger[] { sum[0].subtract(BigInteger.valueOf(8)).shiftLeft(1), sum[1].add(BigInteger.valueOf(8)).shiftLeft(1) };
    return new BigInteger[] { fsh(sum[0], 32), csh(sum[1], 32) };
  }
  static BigInteger[] ln(BigInteger n, BigInteger d, int w) {
    // n/d = m * 2^e with m in [2/3, 4/3)
    int e = n.bitLength() - d.bitLength();
    BigInteger mn = e < 0 ? n.shiftLeft(-e) : n, md = e > 0 ? d.shiftLeft(e) : d;
    BigInteger three = BigInteger.valueOf(3);
    while (mn.multiply(three).compareTo(md.multiply(BigInteger.valueOf(4))) >= 0) { md = md.shiftLeft(1); e++; }
    while (mn.multiply(three).compareTo(md.shiftLeft(1)) < 0) { mn = mn.shiftLeft(1); e--; }
    BigInteger[] a = atanh2(mn.subtract(md), mn.add(md), w);
    BigInteger[] l2 = atanh2(O, three, w);
    BigInteger be = BigInteger.valueOf(e);
    BigInteger p = l2[0].multiply(be), q = l2[1].multiply(be);
    return new BigInteger[] { a[0].add(p.min(q)), a[1].add(p.max(q)) };
  }
  static BigInteger[] agm(BigInteger[] a, BigInteger[] b, int w) {
    for (int n = 0; n < 60 + w; n++) {
      BigInteger[] m = { fsh(a[0].add(b[0]), 1), csh(a[1].add(b[1]), 1) };
      BigInteger lo = a[0].multiply(b[0]).sqrt(), h = a[1].multiply(b[1]), r = h.sqrt();
      BigInteger[] q = { lo, r.multiply(r).equals(h) ? r : r.add(O) };
      if (m[1].max(q[1]).subtract(m[0].min(q[0])).compareTo(BigInteger.valueOf(64)) <= 0)
        return new BigInteger[] { m[0].min(q[0]), m[1].max(q[1]) };
      a = m; b = q;
    }
    return new BigInteger[] { a[0].min(b[0]), a[1].max(b[1]) };
  }
  interface F { BigInteger[] at(int w); }
  static Value ziv(F f, int n) {
    for (int w = n + 40;; w = w + w / 2 + 40) {
      BigInteger[] r = f.at(w);
      BigInteger a = fsh(r[0], w - n), b = fsh(r[1], w - n);
      if (a.equals(b)) return s(a);
    }
  }
  public static Value ExpFloor(Value n, Value d, Value k) {
    if (g(n).signum() == 0) return s(O.shiftLeft(i(k)));
    // a huge negative argument: e^x < 2^x < 2^-k
    if (g(n).signum() < 0 && g(n).abs().divide(g(d)).compareTo(BigInteger.valueOf(i(k) + 2)) > 0) return s(ZR);
    return ziv(w -> exp(g(n), g(d), w), i(k));
  }
  public static Value LnFloor(Value n, Value d, Value k) {
    if (g(n).equals(g(d))) return s(ZR);
    return ziv(w -> ln(g(n), g(d), w), i(k));
  }
  public static Value AgmFloor(Value an, Value ad, Value bn, Value bd, Value k) {
    if (g(an).signum() == 0 || g(bn).signum() == 0) return s(ZR);
    if (g(an).multiply(g(bd)).equals(g(bn).multiply(g(ad)))) return s(fdiv(g(an).shiftLeft(i(k)), g(ad)));
    return ziv(w -> agm(rat(g(an), g(ad), w), rat(g(bn), g(bd), w), w), i(k));
  }
}
