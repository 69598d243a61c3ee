import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

/** TLC implementation of the operators of BigPoly.tla (definitions: BigPolyDef.tla). */
public class BigPoly {
  static final BigInteger O = BigInteger.ONE, ZR = BigInteger.ZERO, TWO = BigInteger.valueOf(2);
  static BigInteger g(Value v) { return new BigInteger(((StringValue) v).getVal().toString()); }
  static Value s(BigInteger b) { return new StringValue(b.toString()); }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("BigPoly: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static BigInteger[] p(Value v) {
    Value[] e = elems(v);
    BigInteger[] r = new BigInteger[e.length];
    for (int k = 0; k < r.length; k++) r[k] = g(e[k]);
    return r;
  }
  static Value t(BigInteger[] a) {
    Value[] e = new Value[a.length];
    for (int k = 0; k < e.length; k++) e[k] = s(a[k]);
    return new TupleValue(e);
  }
  static BigInteger[] norm(BigInteger[] a) {
    int n = a.length;
    while (n > 0 && a[n - 1].signum() == 0) n--;
    return n == a.length ? a : Arrays.copyOf(a, n);
  }
  static BigInteger lc(BigInteger[] a) { return a[a.length - 1]; }
  static BigInteger[] add(BigInteger[] a, BigInteger[] b) {
    BigInteger[] r = new BigInteger[Math.max(a.length, b.length)];
    for (int k = 0; k < r.length; k++)
      r[k] = (k < a.length ? a[k] : ZR).add(k < b.length ? b[k] : ZR);
    return norm(r);
  }
  static BigInteger[] neg(BigInteger[] a) {
    BigInteger[] r = new BigInteger[a.length];
    for (int k = 0; k < r.length; k++) r[k] = a[k].negate();
    return r;
  }
  static BigInteger[] scale(BigInteger[] a, BigInteger c) {
    BigInteger[] r = new BigInteger[a.length];
    for (int k = 0; k < r.length; k++) r[k] = a[k].multiply(c);
    return norm(r);
  }
  static BigInteger[] mul(BigInteger[] a, BigInteger[] b) {
    if (a.length == 0 || b.length == 0) return new BigInteger[0];
    BigInteger[] r = new BigInteger[a.length + b.length - 1];
    Arrays.fill(r, ZR);
    for (int x = 0; x < a.length; x++)
      if (a[x].signum() != 0)
        for (int y = 0; y < b.length; y++) r[x + y] = r[x + y].add(a[x].multiply(b[y]));
    return norm(r);
  }
  static BigInteger[] deriv(BigInteger[] a) {
    if (a.length <= 1) return new BigInteger[0];
    BigInteger[] r = new BigInteger[a.length - 1];
    for (int k = 0; k < r.length; k++) r[k] = a[k + 1].multiply(BigInteger.valueOf(k + 1));
    return norm(r);
  }
  static BigInteger evalH(BigInteger[] a, BigInteger n, BigInteger d) {
    BigInteger acc = ZR, dp = O;
    for (int k = a.length - 1; k >= 0; k--) {
      acc = acc.multiply(n).add(a[k].multiply(dp));
      dp = dp.multiply(d);
    }
    return acc;
  }
  static BigInteger content(BigInteger[] a) {
    BigInteger c = ZR;
    for (BigInteger x : a) c = c.gcd(x);
    return c;
  }
  static BigInteger[] divz(BigInteger[] a, BigInteger c) {
    BigInteger[] r = new BigInteger[a.length];
    for (int k = 0; k < r.length; k++) r[k] = floorDiv(a[k], c);
    return r;
  }
  static BigInteger floorDiv(BigInteger a, BigInteger b) {
    BigInteger[] r = a.divideAndRemainder(b);
    return r[1].signum() != 0 && r[1].signum() != b.signum() ? r[0].subtract(O) : r[0];
  }
  static BigInteger[] posprim(BigInteger[] a) { return a.length == 0 ? a : divz(a, content(a)); }
  static BigInteger[] prim(BigInteger[] a) {
    if (a.length == 0) return a;
    BigInteger c = content(a);
    return divz(a, lc(a).signum() < 0 ? c.negate() : c);
  }
  /** {quotient, remainder} with lc(b)^(deg a - deg b + 1) a = q b + r */
  static BigInteger[][] pseudo(BigInteger[] a, BigInteger[] b) {
    int steps = a.length - b.length + 1;
    if (steps <= 0) return new BigInteger[][] {new BigInteger[0], a};
    BigInteger l = lc(b);
    BigInteger[] r = a.clone(), q = new BigInteger[steps];
    Arrays.fill(q, ZR);
    for (int st = steps - 1; st >= 0; st--) {
      BigInteger c = r[st + b.length - 1];
      for (int k = st + 1; k < steps; k++) q[k] = q[k].multiply(l);
      q[st] = c;
      for (int k = 0; k < st + b.length; k++) r[k] = r[k].multiply(l);
      for (int k = 0; k < b.length; k++) r[st + k] = r[st + k].subtract(c.multiply(b[k]));
    }
    return new BigInteger[][] {norm(q), norm(r)};
  }
  static BigInteger[] prem(BigInteger[] a, BigInteger[] b) { return pseudo(a, b)[1]; }
  static BigInteger[] gcd(BigInteger[] a, BigInteger[] b) {
    a = prim(a); b = prim(b);
    if (a.length < b.length) { BigInteger[] x = a; a = b; b = x; }
    while (b.length > 0) { BigInteger[] r = prim(prem(a, b)); a = b; b = r; }
    return prim(a);
  }
  static BigInteger[] sqfree(BigInteger[] a) {
    BigInteger[] d = gcd(a, deriv(a));
    return d.length <= 1 ? prim(a) : prim(pseudo(a, d)[0]);
  }
  static boolean divides(BigInteger[] q, BigInteger[] a) {
    return a.length < q.length ? a.length == 0 : prem(a, q).length == 0;
  }
  static BigInteger det(BigInteger[][] m) {
    int n = m.length, sg = 1;
    BigInteger prev = O;
    for (int k = 0; k < n - 1; k++) {
      int r = k;
      while (r < n && m[r][k].signum() == 0) r++;
      if (r == n) return ZR;
      if (r != k) { BigInteger[] x = m[r]; m[r] = m[k]; m[k] = x; sg = -sg; }
      for (int x = k + 1; x < n; x++) {
        for (int y = k + 1; y < n; y++)
          m[x][y] = m[x][y].multiply(m[k][k]).subtract(m[x][k].multiply(m[k][y])).divide(prev);
        m[x][k] = ZR;
      }
      prev = m[k][k];
    }
    if (n == 0) return O;
    return sg > 0 ? m[n - 1][n - 1] : m[n - 1][n - 1].negate();
  }
  static List<BigInteger[]> sturm(BigInteger[] a) {
    List<BigInteger[]> ch = new ArrayList<>();
    a = posprim(a);
    BigInteger[] b = posprim(deriv(a));
    ch.add(a);
    while (b.length > 0) {
      ch.add(b);
      int e = a.length - b.length + 1;
      BigInteger[] pr = prem(a, b);
      BigInteger[] r = lc(b).signum() < 0 && e % 2 == 1 ? pr : neg(pr);
      a = b;
      b = posprim(r);
    }
    return ch;
  }
  static int variations(int[] sg) {
    int last = 0, c = 0;
    for (int x : sg) if (x != 0) { if (last != 0 && x != last) c++; last = x; }
    return c;
  }
  static int varAt(List<BigInteger[]> ch, BigInteger n, BigInteger d) {
    int[] sg = new int[ch.size()];
    for (int k = 0; k < sg.length; k++) sg[k] = evalH(ch.get(k), n, d).signum();
    return variations(sg);
  }
  static int countHalfOpen(BigInteger[] a, BigInteger an, BigInteger ad, BigInteger bn, BigInteger bd) {
    List<BigInteger[]> ch = sturm(sqfree(a));
    return varAt(ch, an, ad) - varAt(ch, bn, bd);
  }
  /** sign of a at m / 2^j */
  static int sgnD(BigInteger[] a, BigInteger m, int j) {
    BigInteger acc = ZR;
    int d = a.length - 1;
    for (int k = d; k >= 0; k--) acc = acc.multiply(m).add(a[k].shiftLeft(j * (d - k)));
    return acc.signum();
  }
  static BigInteger valD(BigInteger[] a, BigInteger m, int j) {
    BigInteger acc = ZR;
    int d = a.length - 1;
    for (int k = d; k >= 0; k--) acc = acc.multiply(m).add(a[k].shiftLeft(j * (d - k)));
    return acc;
  }
  static BigInteger rootFloor(BigInteger[] q, BigInteger lo, BigInteger hi, int k, int n) {
    BigInteger[] a = sqfree(q);
    int sl = sgnD(a, lo, k), sh = sgnD(a, hi, k);
    if (sl == 0) return lo.shiftLeft(n).shiftRight(k);
    if (sh == 0) return hi.shiftLeft(n).shiftRight(k);
    if (sl == sh) throw new RuntimeException("PRootFloor: no sign change");
    int j = k;
    // invariant: sign at lo/2^j is sl, sign at hi/2^j is sh, root strictly between
    int N = 2; // log2 of the number of pieces to try
    while (j < n || hi.subtract(lo).compareTo(O) > 0) {
      if (hi.subtract(lo).bitLength() > 3 || j >= n) {
        // plain bisection while the interval is wide
        BigInteger m = lo.add(hi).shiftRight(1);
        int sm = sgnD(a, m, j);
        if (sm == 0) return m.shiftLeft(n).shiftRight(j);
        if (sm == sl) lo = m; else hi = m;
        continue;
      }
      // quadratic interval refinement: secant guess on a grid 2^N times finer
      BigInteger fl = valD(a, lo, j), fh = valD(a, hi, j);
      BigInteger w = hi.subtract(lo);
      BigInteger num = fl.shiftLeft(N).multiply(w), den = fl.subtract(fh);
      BigInteger c = lo.shiftLeft(N).add(num.add(den.shiftRight(1)).divide(den));
      BigInteger nl = lo.shiftLeft(N), nh = hi.shiftLeft(N);
      BigInteger x = c.subtract(w).max(nl), y = c.add(w).min(nh);
      int sx = x.equals(nl) ? sl : sgnD(a, x, j + N), sy = y.equals(nh) ? sh : sgnD(a, y, j + N);
      if (sx == 0) return x.shiftLeft(n).shiftRight(j + N);
      if (sy == 0) return y.shiftLeft(n).shiftRight(j + N);
      if (x.compareTo(y) < 0 && sx == sl && sy == sh) {
        lo = x; hi = y; j += N; N = Math.min(2 * N, 4096);
      } else {
        N = Math.max(1, N / 2);
        lo = lo.shiftLeft(1); hi = hi.shiftLeft(1); j += 1;
        BigInteger m = lo.add(hi).shiftRight(1);
        int sm = sgnD(a, m, j);
        if (sm == 0) return m.shiftLeft(n).shiftRight(j);
        if (sm == sl) lo = m; else hi = m;
      }
    }
    // lo + 1 = hi and the root is strictly between them
    return lo.shiftRight(j - n);
  }

  // ---------------------------------------------------------------- irreducibility over Q
  static long[] modp(BigInteger[] a, long pr) {
    long[] r = new long[a.length];
    BigInteger P = BigInteger.valueOf(pr);
    for (int k = 0; k < r.length; k++) r[k] = a[k].mod(P).longValue();
    return nl(r);
  }
  static long[] nl(long[] a) {
    int n = a.length;
    while (n > 0 && a[n - 1] == 0) n--;
    return n == a.length ? a : Arrays.copyOf(a, n);
  }
  static long pw(long b, long e, long m) {
    long r = 1; b %= m;
    for (; e > 0; e >>= 1, b = b * b % m) if ((e & 1) == 1) r = r * b % m;
    return r;
  }
  static long[] mulp(long[] a, long[] b, long m) {
    if (a.length == 0 || b.length == 0) return new long[0];
    long[] r = new long[a.length + b.length - 1];
    for (int x = 0; x < a.length; x++) if (a[x] != 0) for (int y = 0; y < b.length; y++) r[x + y] = (r[x + y] + a[x] * b[y]) % m;
    return nl(r);
  }
  static long[] subp(long[] a, long[] b, long m) {
    long[] r = new long[Math.max(a.length, b.length)];
    for (int k = 0; k < r.length; k++) r[k] = ((k < a.length ? a[k] : 0) - (k < b.length ? b[k] : 0) + m) % m;
    return nl(r);
  }
  static long[][] dmp(long[] a, long[] b, long m) {
    if (a.length < b.length) return new long[][] {new long[0], a};
    long[] r = a.clone(), q = new long[a.length - b.length + 1];
    long inv = pw(b[b.length - 1], m - 2, m);
    for (int k = q.length - 1; k >= 0; k--) {
      long c = r[k + b.length - 1] * inv % m;
      q[k] = c;
      if (c != 0) for (int y = 0; y < b.length; y++) r[k + y] = ((r[k + y] - c * b[y]) % m + m) % m;
    }
    return new long[][] {nl(q), nl(r)};
  }
  static long[] monp(long[] a, long m) {
    if (a.length == 0) return a;
    long inv = pw(a[a.length - 1], m - 2, m);
    long[] r = new long[a.length];
    for (int k = 0; k < r.length; k++) r[k] = a[k] * inv % m;
    return r;
  }
  static long[] gcdp(long[] a, long[] b, long m) {
    while (b.length > 0) { long[] r = dmp(a, b, m)[1]; a = b; b = r; }
    return monp(a, m);
  }
  static long[] powp(long[] b, BigInteger e, long[] f, long m) {
    long[] r = {1};
    b = dmp(b, f, m)[1];
    for (int k = e.bitLength() - 1; k >= 0; k--) {
      r = dmp(mulp(r, r, m), f, m)[1];
      if (e.testBit(k)) r = dmp(mulp(r, b, m), f, m)[1];
    }
    return r;
  }
  /** list of {degree, product} */
  static List<Object[]> ddf(long[] f, long m) {
    List<Object[]> out = new ArrayList<>();
    long[] x = {0, 1}, h = x;
    int d = 0;
    while (f.length - 1 >= 2 * (d + 1)) {
      d++;
      h = powp(h, BigInteger.valueOf(m), f, m);
      long[] gg = gcdp(subp(h, x, m), f, m);
      if (gg.length > 1) { out.add(new Object[] {d, gg}); f = dmp(f, gg, m)[0]; h = dmp(h, f, m)[1]; }
    }
    if (f.length > 1) out.add(new Object[] {f.length - 1, f});
    return out;
  }
  static void edf(long[] f, int d, long m, Random rnd, List<long[]> out) {
    if (f.length - 1 == d) { out.add(f); return; }
    BigInteger e = BigInteger.valueOf(m).pow(d).subtract(O).shiftRight(1);
    while (true) {
      long[] a = new long[f.length - 1];
      for (int k = 0; k < a.length; k++) a[k] = (rnd.nextLong() >>> 1) % m;
      a = nl(a);
      if (a.length < 2) continue;
      long[] gg = gcdp(a, f, m);
      if (gg.length == 1) gg = gcdp(subp(powp(a, e, f, m), new long[] {1}, m), f, m);
      if (gg.length > 1 && gg.length < f.length) {
        edf(gg, d, m, rnd, out);
        edf(monp(dmp(f, gg, m)[0], m), d, m, rnd, out);
        return;
      }
    }
  }
  static BigInteger[] modsym(BigInteger[] a, BigInteger M) {
    BigInteger h = M.shiftRight(1);
    BigInteger[] r = new BigInteger[a.length];
    for (int k = 0; k < r.length; k++) { r[k] = a[k].mod(M); if (r[k].compareTo(h) > 0) r[k] = r[k].subtract(M); }
    return norm(r);
  }
  static BigInteger[] modM(BigInteger[] a, BigInteger M) {
    BigInteger[] r = new BigInteger[a.length];
    for (int k = 0; k < r.length; k++) r[k] = a[k].mod(M);
    return norm(r);
  }
  /** division by monic b modulo M */
  static BigInteger[][] dmM(BigInteger[] a, BigInteger[] b, BigInteger M) {
    if (a.length < b.length) return new BigInteger[][] {new BigInteger[0], a};
    BigInteger[] r = a.clone(), q = new BigInteger[a.length - b.length + 1];
    for (int k = q.length - 1; k >= 0; k--) {
      BigInteger c = r[k + b.length - 1].mod(M);
      q[k] = c;
      for (int y = 0; y < b.length; y++) r[k + y] = r[k + y].subtract(c.multiply(b[y])).mod(M);
    }
    return new BigInteger[][] {norm(q), norm(r)};
  }
  static BigInteger[] big(long[] a) {
    BigInteger[] r = new BigInteger[a.length];
    for (int k = 0; k < r.length; k++) r[k] = BigInteger.valueOf(a[k]);
    return r;
  }
  /** s, t with s a + t b = 1 mod p, deg s < deg b, deg t < deg a */
  static long[][] bez(long[] a, long[] b, long m) {
    long[] r0 = a, r1 = b, s0 = {1}, s1 = {}, t0 = {}, t1 = {1};
    while (r1.length > 0) {
      long[][] qr = dmp(r0, r1, m);
      long[] x = subp(s0, mulp(qr[0], s1, m), m), y = subp(t0, mulp(qr[0], t1, m), m);
      r0 = r1; r1 = qr[1]; s0 = s1; s1 = x; t0 = t1; t1 = y;
    }
    long inv = pw(r0[0], m - 2, m);
    long[] c = {inv};
    return new long[][] {mulp(s0, c, m), mulp(t0, c, m)};
  }
  /** lift f = g h (mod p), g, h monic, f monic mod M = p^e (linear lifting) */
  static BigInteger[][] lift2(BigInteger[] f, long[] g0, long[] h0, long pr, BigInteger M) {
    long[][] st = bez(g0, h0, pr);
    BigInteger[] gg = big(g0), hh = big(h0);
    BigInteger cur = BigInteger.valueOf(pr);
    while (cur.compareTo(M) < 0) {
      BigInteger[] e = add(f, neg(mul(gg, hh)));
      BigInteger[] ed = new BigInteger[e.length];
      for (int k = 0; k < e.length; k++) ed[k] = floorDiv(e[k], cur);
      long[] ep = modp(ed, pr);
      // find dg, dh: dg*h + dh*g = e mod p, deg dg < deg g
      long[] dg = dmp(mulp(st[1], ep, pr), g0, pr)[1];
      long[] dh = dmp(subp(ep, mulp(dg, h0, pr), pr), g0, pr)[0];
      gg = add(gg, scale(big(dg), cur));
      hh = add(hh, scale(big(dh), cur));
      cur = cur.multiply(BigInteger.valueOf(pr));
      gg = modM(gg, cur); hh = modM(hh, cur);
    }
    return new BigInteger[][] {gg, hh};
  }
  static void liftAll(BigInteger[] f, List<long[]> fs, long pr, BigInteger M, List<BigInteger[]> out) {
    if (fs.size() == 1) { out.add(f); return; }
    int h = fs.size() / 2;
    long[] a = {1}, b = {1};
    for (int k = 0; k < fs.size(); k++) if (k < h) a = mulp(a, fs.get(k), pr); else b = mulp(b, fs.get(k), pr);
    BigInteger[][] r = lift2(f, a, b, pr, M);
    liftAll(r[0], fs.subList(0, h), pr, M, out);
    liftAll(r[1], fs.subList(h, fs.size()), pr, M, out);
  }
  static final int[] PR = primes(3, 2000);
  static int[] primes(int from, int to) {
    List<Integer> l = new ArrayList<>();
    for (int n = from; n < to; n++) if (BigInteger.valueOf(n).isProbablePrime(50)) l.add(n);
    int[] r = new int[l.size()];
    for (int k = 0; k < r.length; k++) r[k] = l.get(k);
    return r;
  }
  static boolean irreducible(BigInteger[] f) {
    int d = f.length - 1;
    if (d < 1) return false;
    if (!content(f).equals(O)) throw new RuntimeException("PIrreducible: not primitive");
    if (d == 1) return true;
    if (f[0].signum() == 0) return false;
    if (gcd(f, deriv(f)).length > 1) return false;
    BigInteger possible = O.shiftLeft(d + 1).subtract(O);
    BigInteger trivial = O.setBit(d);
    int used = 0, bestR = Integer.MAX_VALUE;
    long bestP = 0;
    for (int pr : PR) {
      long[] fp = modp(f, pr);
      if (fp.length != f.length) continue;
      if (gcdp(fp, modp(deriv(f), pr), pr).length != 1) continue;
      BigInteger deg = O;
      int r = 0;
      for (Object[] e : ddf(monp(fp, pr), pr)) {
        int dd = (Integer) e[0], cnt = (((long[]) e[1]).length - 1) / dd;
        for (int k = 0; k < cnt; k++) { deg = deg.or(deg.shiftLeft(dd)); r++; }
      }
      possible = possible.and(deg);
      if (possible.equals(trivial)) return true;
      if (r < bestR) { bestR = r; bestP = pr; }
      if (++used >= 12) break;
    }
    if (bestP == 0) throw new RuntimeException("PIrreducible: no prime");
    // Zassenhaus with prime bestP
    long pr = bestP;
    List<long[]> fs = new ArrayList<>();
    Random rnd = new Random(12345);
    for (Object[] e : ddf(monp(modp(f, pr), pr), pr)) edf((long[]) e[1], (Integer) e[0], pr, rnd, fs);
    int r = fs.size();
    if (r > 24) throw new RuntimeException("PIrreducible: too many modular factors");
    BigInteger norm2 = ZR;
    for (BigInteger c : f) norm2 = norm2.add(c.multiply(c));
    BigInteger B = norm2.sqrt().add(O).shiftLeft(d + 1).multiply(lc(f).abs());
    BigInteger P = BigInteger.valueOf(pr), M = P;
    while (M.compareTo(B.shiftLeft(1)) <= 0) M = M.multiply(P);
    BigInteger[] fm = modM(scale(f, lc(f).modInverse(M)), M);
    List<BigInteger[]> lifted = new ArrayList<>();
    liftAll(fm, fs, pr, M, lifted);
    for (int mask = 1; mask < (1 << r) - 1; mask++) {
      if (Integer.bitCount(mask) * 2 > r) continue;
      int dd = 0;
      for (int k = 0; k < r; k++) if ((mask >> k & 1) == 1) dd += fs.get(k).length - 1;
      if (!possible.testBit(dd)) continue;
      BigInteger[] c = {lc(f)};
      for (int k = 0; k < r; k++) if ((mask >> k & 1) == 1) c = modM(mul(c, lifted.get(k)), M);
      c = prim(modsym(c, M));
      if (c.length > 1 && c.length < f.length && divides(c, f)) return false;
    }
    return true;
  }

  // ---------------------------------------------------------------- operators
  public static Value PNorm(Value a) { return t(norm(p(a))); }
  public static Value PAdd(Value a, Value b) { return t(add(p(a), p(b))); }
  public static Value PNeg(Value a) { return t(neg(p(a))); }
  public static Value PSub(Value a, Value b) { return t(add(p(a), neg(p(b)))); }
  public static Value PScale(Value a, Value c) { return t(scale(p(a), g(c))); }
  public static Value PMul(Value a, Value b) { return t(mul(p(a), p(b))); }
  public static Value PPow(Value a, Value n) {
    BigInteger[] r = {O}, b = p(a);
    for (int e = i(n); e > 0; e >>= 1) { if ((e & 1) == 1) r = mul(r, b); if (e > 1) b = mul(b, b); }
    return t(r);
  }
  public static Value PDeriv(Value a) { return t(deriv(p(a))); }
  public static Value PEvalH(Value a, Value n, Value d) { return s(evalH(p(a), g(n), g(d))); }
  public static Value PContent(Value a) { return s(content(p(a))); }
  public static Value PDivZ(Value a, Value c) { return t(divz(p(a), g(c))); }
  public static Value PPrim(Value a) { return t(prim(p(a))); }
  public static Value PPrem(Value a, Value b) { return t(prem(p(a), p(b))); }
  public static Value PGcd(Value a, Value b) { return t(gcd(p(a), p(b))); }
  public static Value PSqFree(Value a) { return t(sqfree(p(a))); }
  public static Value PDivides(Value q, Value a) { return divides(p(q), p(a)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Det(Value m) {
    Value[] rows = elems(m);
    BigInteger[][] x = new BigInteger[rows.length][];
    for (int k = 0; k < x.length; k++) x[k] = p(rows[k]);
    return s(det(x));
  }
  public static Value PRes(Value av, Value bv) {
    BigInteger[] a = p(av), b = p(bv);
    if (a.length == 0 || b.length == 0) return s(ZR);
    int m = a.length - 1, n = b.length - 1;
    BigInteger[][] x = new BigInteger[m + n][m + n];
    for (int r = 0; r < m + n; r++) {
      Arrays.fill(x[r], ZR);
      BigInteger[] q = r < n ? a : b;
      int sh = r < n ? r : r - n;
      for (int k = 0; k < q.length; k++) x[r][sh + k] = q[q.length - 1 - k];
    }
    return s(det(x));
  }
  public static Value PCountHalfOpen(Value a, Value an, Value ad, Value bn, Value bd) {
    return IntValue.gen(countHalfOpen(p(a), g(an), g(ad), g(bn), g(bd)));
  }
  public static Value PCountClosed(Value a, Value an, Value ad, Value bn, Value bd) {
    BigInteger[] q = p(a);
    return IntValue.gen(countHalfOpen(q, g(an), g(ad), g(bn), g(bd)) + (evalH(q, g(an), g(ad)).signum() == 0 ? 1 : 0));
  }
  public static Value PCountAll(Value a) {
    List<BigInteger[]> ch = sturm(sqfree(p(a)));
    int[] u = new int[ch.size()], v = new int[ch.size()];
    for (int k = 0; k < u.length; k++) {
      BigInteger[] q = ch.get(k);
      v[k] = lc(q).signum();
      u[k] = q.length % 2 == 1 ? v[k] : -v[k];
    }
    return IntValue.gen(variations(u) - variations(v));
  }
  public static Value PRootFloor(Value a, Value lo, Value hi, Value k, Value n) {
    return s(rootFloor(p(a), g(lo), g(hi), i(k), i(n)));
  }
  public static Value PIrreducible(Value a) { return irreducible(p(a)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
