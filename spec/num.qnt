// Exact and fixed-point arithmetic on unbounded integers, and the elementary functions.
// A "fixed" number x at precision P stands for the real x / 2^P.
// A BF {m, e} stands for the real m * 2^e.
// Nothing here knows about the implementation: this is the arithmetic the specification is
// written in.
module num {
  type BF = { m: int, e: int }

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def maxi(a: int, b: int): int = if (a < b) b else a
  pure def mini(a: int, b: int): int = if (a < b) a else b
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0

  // Floor and nearest division by a positive divisor.
  pure def fdiv(a: int, b: int): int =
    val q = a / b
    if (a < 0 and q * b != a) q - 1 else q
  pure def rdiv(a: int, b: int): int = fdiv(2 * a + b, 2 * b)

  // x * 2^k for any integer k (floor towards zero when k < 0)
  pure def shift(x: int, k: int): int = if (k >= 0) x * 2^k else x / 2^(-k)

  pure val BITSTEPS6: List[int] = [32, 16, 8, 4, 2, 1]
  pure val BITSTEPS12: List[int] = [2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1]
  pure val BITSTEPS21: List[int] = [1048576, 524288, 262144, 131072, 65536, 32768, 16384, 8192, 4096,
                                    2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1]
  // Number of bits of n >= 0
  pure def bitLen(n: int): int =
    if (n == 0) 0
    else 1 + (if (n < 2^64) BITSTEPS6 else if (n < 2^4096) BITSTEPS12 else BITSTEPS21)
           .foldl(0, (acc, k) => if (n >= 2^(acc + k)) acc + k else acc)

  // floor(sqrt(n)), n >= 0
  pure def isqrt(n: int): int =
    if (n == 0) 0
    else {
      val b = bitLen(n)
      val x0 = 2^((b + 1) / 2)
      val r = range(0, 3 + bitLen(b)).foldl(x0, (x, _i) => (x + n / x) / 2)
      if (r * r > n) r - 1 else r
    }

  // ---- BF ----
  pure def bf(m: int, e: int): BF = { m: m, e: e }
  pure def bfInt(n: int): BF = { m: n, e: 0 }
  // Keep P significant bits
  pure def bfTrim(P: int, x: BF): BF =
    val b = bitLen(abs(x.m))
    if (b <= P) x else { m: x.m / 2^(b - P), e: x.e + b - P }
  pure def bfMul(x: BF, y: BF): BF = { m: x.m * y.m, e: x.e + y.e }
  pure def bfNeg(x: BF): BF = { m: -x.m, e: x.e }
  // Quotient with P significant bits
  pure def bfDiv(P: int, x: BF, y: BF): BF =
    val k = P + bitLen(abs(y.m)) - bitLen(abs(x.m)) + 1
    if (k >= 0) { m: x.m * 2^k / y.m, e: x.e - y.e - k }
    else { m: x.m / y.m, e: x.e - y.e }
  // Exact sum
  pure def bfAdd(x: BF, y: BF): BF =
    if (x.m == 0) y else if (y.m == 0) x
    else if (x.e <= y.e) { m: x.m + y.m * 2^(y.e - x.e), e: x.e }
    else { m: x.m * 2^(x.e - y.e) + y.m, e: y.e }
  // To a fixed number at precision P
  pure def bfFix(P: int, x: BF): int = shift(x.m, x.e + P)
  // Exponent of the leading bit: 2^(top-1) <= |x| < 2^top
  pure def bfTop(x: BF): int = if (x.m == 0) -1000000000 else x.e + bitLen(abs(x.m))

  // ---- "wide" numbers: fixed at 2^-1200, enough for every double ----
  pure val WP: int = 1200
  pure val WONE: int = 2^1200
  pure def toWide(x: BF): int =
    if (x.m == 0 or bfTop(x) < -1200) 0
    else if (bfTop(x) > 6000) sgn(x.m) * 2^7200
    else shift(x.m, x.e + 1200)

  // ---- constants ----
  pure val CP: int = 1100          // precision of stored constants
  pure val CS: int = 2^1100
  // atan(1/n) and atanh(1/n) at precision CP
  pure def atanInv(n: int): int =
    range(0, 2 + 550 / bitLen(n / 2 + 1) + 50).foldl((CS / n, 0), (a, k) =>
      (a._1 / (n * n), a._2 + (if (k % 2 == 0) a._1 else -a._1) / (2 * k + 1)))._2
  pure def atanhInv(n: int): int =
    range(0, 2 + 550 / bitLen(n / 2 + 1) + 50).foldl((CS / n, 0), (a, k) =>
      (a._1 / (n * n), a._2 + a._1 / (2 * k + 1)))._2
  pure val PI_C: int = 4 * (4 * atanInv(5) - atanInv(239))
  pure val LN2_C: int = 18 * atanhInv(26) - 2 * atanhInv(4801) + 8 * atanhInv(8749)
  pure def piFix(P: int): int = PI_C / 2^(CP - P)
  pure def ln2Fix(P: int): int = LN2_C / 2^(CP - P)
  pure def sqrtPiFix(P: int): int = isqrt(piFix(2 * P + 8) / 2^8)
  pure val SQRTPI_C: int = isqrt(PI_C / 2^100)      // at precision 500
  pure def sqrtPi(P: int): int = SQRTPI_C / 2^(500 - P)   // P <= 500

  // ---- exponential ----
  // exp(x / 2^P) as a BF with about P correct bits (x of any size)
  pure def expBF(P: int, x: int): BF =
    val G = P + 24
    val S = 2^G
    val y = x * 2^24
    val l2 = ln2Fix(G)
    val k = rdiv(y, l2)
    val r = (y - k * (LN2_C / 2^(CP - G - 24)) / 2^24) / 256
    val n = P / 12 + 5
    val t = range(0, n).foldl(S, (acc, i) => S + acc * r / S / (n - i))
    val s = range(0, 8).foldl(t, (acc, _i) => acc * acc / S)
    { m: s, e: k - G }

  // ---- logarithm ----
  pure val LNTAB_P: int = 900
  // ln((129 + 2 i) / 128) at precision LNTAB_P
  pure def lnRatioSeries(P: int, num_: int, den: int, n: int): int =
    val S = 2^P
    val t = (num_ - den) * S / (num_ + den)
    val t2 = t * t / S
    2 * range(0, n).foldl((t, 0), (a, k) => (a._1 * t2 / S, a._2 + a._1 / (2 * k + 1)))._2
  pure val LNTAB: List[int] =
    range(0, 64).foldl([], (l, i) => l.append(lnRatioSeries(900, 129 + 2 * i, 128, 290)))
  // ln of a positive BF, fixed at P
  pure def lnBF(P: int, v: BF): int =
    val G = P + 16
    val S = 2^G
    val b = bitLen(v.m)
    val y = shift(v.m, G - b + 1)       // in [S, 2S)
    val i = (y - S) * 64 / S
    val c = S + (2 * i + 1) * S / 128
    val t = (y - c) * S / (y + c)
    val t2 = t * t / S
    val n = G / 16 + 2
    val s = 2 * range(0, n).foldl((t, 0), (a, k) => (a._1 * t2 / S, a._2 + a._1 / (2 * k + 1)))._2
    val ee = v.e + b - 1
    (s + LNTAB[i] / 2^(LNTAB_P - G) + ee * (LN2_C / 2^(CP - G - 24)) / 2^24) / 2^16
  pure def lnFix(P: int, x: int): int = lnBF(P, { m: x, e: -P })

  // ---- sine and cosine of a fixed x (|x| up to about 2^(900-P)) ----
  pure def sinCos(P: int, x: int): (int, int) =
    val H = mini(CP - 40, P + 60 + maxi(0, bitLen(abs(x)) - P))
    val hp = PI_C / 2^(CP - H) / 2             // pi/2 at precision H
    val xx = x * 2^(H - P)
    val k = rdiv(xx, hp)
    val r = (xx - k * hp) / 2^(H - P - 12)   // precision P + 12
    val S = 2^(P + 12)
    val r2 = r * r / S
    val n = P / 8 + 8
    val sn = range(0, n).foldl(S, (acc, j) => val q = n - j S - acc * r2 / S / (2 * q * (2 * q + 1))) * r / S
    val cs = range(0, n).foldl(S, (acc, j) => val q = n - j S - acc * r2 / S / (2 * q * (2 * q - 1)))
    val m = ((k % 4) + 4) % 4
    val s1 = sn / 4096
    val c1 = cs / 4096
    if (m == 0) (s1, c1) else if (m == 1) (c1, -s1) else if (m == 2) (-s1, -c1) else (-c1, s1)

  // sin(pi*v), cos(pi*v) for an exact BF v, by exact reduction modulo 2
  pure def sinCosPi(P: int, v: BF): (int, int) =
    if (v.e >= 1) (0, 2^P)
    else {
      val D = 2^(-v.e)
      val k = rdiv(2 * v.m, D)                 // nearest half-integer: v = k/2 + r/(2D)
      val r2 = 2 * v.m - k * D                 // |r2| <= D/2 ; v - k/2 = r2/(2D)
      val ang = r2 * piFix(P + 8) / (2 * D)    // at precision P + 8
      val sc = sinCos(P + 8, ang)
      val m = ((k % 4) + 4) % 4
      val s1 = sc._1 / 256
      val c1 = sc._2 / 256
      if (m == 0) (s1, c1) else if (m == 1) (c1, -s1) else if (m == 2) (-s1, -c1) else (-c1, s1)
    }
  // sin(pi v) keeping relative precision: BF with about P significant bits
  pure def sinPiBF(P: int, v: BF): BF =
    if (v.e >= 0) bfInt(0)
    else {
      val D = 2^(-v.e)
      val k = rdiv(v.m, D)
      val r = v.m - k * D                      // v - k = r / D, |r/D| <= 1/2
      if (r == 0) bfInt(0)
      else {
        val lead = bitLen(D) - bitLen(abs(r))  // about log2 of D/|r|
        val Q = P + maxi(0, lead) + 8
        if (Q < CP - 120) {
          val sc = sinCos(Q, r * piFix(Q + 8) / D / 256)
          { m: if (k % 2 == 0) sc._1 else -sc._1, e: -Q }
        } else {
          // so close to an integer that sin(pi d) = pi d to full precision
          val q = bfTrim(P + 8, { m: r * piFix(P + 8), e: v.e - P - 8 })
          if (k % 2 == 0) q else bfNeg(q)
        }
      }
    }

  // x^y for positive BF x and exact BF y: exp(y ln x), about P bits, |y ln x| < 2^40
  pure def powBF(P: int, x: BF, y: BF): BF =
    val G = P + 48
    val l = lnBF(G, x)
    expBF(P, shift(l * y.m, y.e - 48))
}
