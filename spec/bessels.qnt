// Reference definitions of the Bessel functions J, Y, I, K of real order nu >= 0, x > 0.
// Every function returns the pair of orders (nu, nu + 1).
module bessels {
  import num.* from "./num"
  import gammas.* from "./gammas"

  type Pair = { a: BF, b: BF, ok: bool }

  // Euler's constant by Brent and McMillan's method, at precision 400
  pure val GP: int = 460
  pure val EULER: int = {
    val S = 2^GP
    val n = 72
    val r = range(1, 420).foldl((S, 0, S, 0), (t, k) =>
      // t = (term, H_k, sum of terms, sum of terms * H_k)
      val u = t._1 * n * n / (k * k)
      val h = t._2 + S / k
      (u, h, t._3 + u, t._4 + u * h / S))
    (r._4 * S / r._3 - lnFix(GP, n * S)) / 2^60
  }
  pure def eulerFix(P: int): int = EULER / 2^(400 - P)

  pure def ge(x: BF, n: int): bool = bfTop(x) > 40 or bfFix(64, x) >= n * 2^64

  // (x/2)^nu / Gamma(nu + 1) with about P bits, nu > -1
  pure def prefactor(P: int, nu: BF, x: BF): BF =
    val G = P + 16
    val l = lnBF(G + 40, { m: x.m, e: x.e - 1 })
    val e = shift(l * nu.m, nu.e - 40) - lnGammaFix(G, bfTrim(1200, bfAdd(bfInt(1), nu)))
    expBF(P, e / 2^16)

  // sum_k (s x^2/4)^k / (k! (nu+1)_k) at precision P, as (sum, last term)
  pure def series(P: int, s: int, nu: BF, q: int, n: int): (int, int) =
    val S = 2^P
    val v = bfFix(P, nu)
    val r = range(1, n).foldl((S, S), (t, k) =>
      val u = s * t._1 * q / (k * (v + k * S))
      (u, t._2 + u))
    (r._2, r._1)
  pure def quarterSq(P: int, x: BF): int = bfFix(P, bfMul({ m: x.m, e: x.e - 1 }, { m: x.m, e: x.e - 1 }))

  // C_{k+1} = (2 (mu+k)/x) C_k + s C_{k-1}, from (C_mu, C_{mu+1}) up to (C_{mu+n}, C_{mu+n+1});
  // entries are integers in units of 2^-P; saturates beyond 2^lim
  pure def upward(s: int, mu: BF, x: BF, c0: int, c1: int, n: int, lim: int): (int, int) =
    val e = mini(mu.e, 0)
    val one = 2^(-e)
    val mm = shift(mu.m, mu.e - e)              // mu = mm / one
    val L = 2^lim
    range(1, n + 1).foldl((c0, c1), (c, k) =>
      if (abs(c._2) > L) (c._2, c._2)
      else (c._2, shift(2 * (mm + k * one) * c._2, mini(0, e - x.e)) * 2^(maxi(0, e - x.e)) / x.m + s * c._1))

  // nu = n + mu with |mu| <= 1/2
  pure def split(nu: BF): (int, BF) =
    if (nu.e >= 0) (shift(nu.m, nu.e), bfInt(0))
    else {
      val D = 2^(-nu.e)
      val n = rdiv(nu.m, D)
      (n, { m: nu.m - n * D, e: nu.e })
    }

  // ---- x >= 25: Hankel's expansions ----
  // a_k(mu)/x^k for k = 0..50 ; s = alternation
  pure val HP: int = 176
  pure def hankelPQ(mu: BF, x: BF): (int, int) =
    val S = 2^HP
    val m4 = 4 * bfFix(HP, bfMul(mu, mu))
    val xi = bfFix(HP, bfDiv(HP + 8, bfInt(1), bfMul(bfInt(8), x)))    // 1/(8x)
    // alternate into P (even) and Q (odd) with signs + + - -
    val r = range(1, 50).foldl((S, S, 0), (t, k) =>
      val u = t._1 * (m4 - (2 * k - 1) * (2 * k - 1) * S) / S * xi / S / k
      val sg = if ((k / 2) % 2 == 0) u else -u
      if (k % 2 == 0) (u, t._2 + sg, t._3) else (u, t._2, t._3 + sg))
    (r._2, r._3)
  pure def sqrtTwoOverPiX(x: BF): int =
    // sqrt(2/(pi x)) at HP
    isqrt(bfFix(2 * HP, bfDiv(2 * HP + 16, bfInt(2), bfMul(x, { m: piFix(2 * HP), e: -2 * HP }))))
  // (J_mu, Y_mu) at HP
  pure def hankelJY(mu: BF, x: BF): (int, int) =
    val S = 2^HP
    val pq = hankelPQ(mu, x)
    val muf = bfFix(HP, mu)
    val chi = bfFix(HP, x) - (2 * muf + S) * piFix(HP) / S / 4
    val sc = sinCos(HP, chi)
    val r = sqrtTwoOverPiX(x)
    ((pq._1 * sc._2 - pq._2 * sc._1) / S * r / S, (pq._1 * sc._1 + pq._2 * sc._2) / S * r / S)

  // ---- x < 25 ----
  pure val LP: int = 230
  // (Y_0, Y_1) or (K_0, K_1) at precision LP from the logarithmic series; s = -1 for Y, +1 for K
  pure def logPair(s: int, x: BF): (int, int) =
    val S = 2^LP
    val q = quarterSq(LP, x)
    val lg = lnBF(LP, { m: x.m, e: x.e - 1 })
    val g = eulerFix(LP)
    // (t_k = q^k s^k/k!^2, H_k, sum t, sum t H_k, sum t/(k+1), sum t/(k+1) (2 H_k + 1/(k+1)))
    val r = range(1, 150).foldl((S, 0, S, 0, S, S), (t, k) =>
      val u = s * t._1 * q / S / (k * k)
      val h = t._2 + S / k
      val w = u / (k + 1)
      (u, h, t._3 + u, t._4 + u * h / S, t._5 + w, t._6 + w * (2 * h + S / (k + 1)) / S))
    val c0 = r._3
    val hx = bfFix(LP, { m: x.m, e: x.e - 1 })          // x/2
    val inv = bfFix(LP, bfDiv(LP + 1300, bfInt(1), x))
    val pi = piFix(LP)
    if (s == -1) {
      val y0 = 2 * ((lg + g) * c0 / S - r._4) * S / pi
      // Y1 = -2/(pi x) + (2/pi) ln(x/2) J1 - (1/pi)(x/2) sum t/(k+1) (-2g + 2H_k + 1/(k+1))
      val y1 = (-(2 * inv) + (2 * lg * r._5 / S - r._6 + 2 * g * r._5 / S) * hx / S) * S / pi
      (y0, y1)
    } else {
      val k0 = -((lg + g) * c0 / S) + r._4
      val k1 = inv + (2 * lg * r._5 / S - r._6 + 2 * g * r._5 / S) * hx / (2 * S)
      (k0, k1)
    }
  // 1/Gamma(1+mu), 1/Gamma(1-mu) at P, 0 < |mu| <= 1/2
  pure def fracPair(s: int, mu: BF, x: BF): (int, int) =
    // (Y_mu, Y_{mu+1}) (s = -1) or (K_mu, K_{mu+1}) (s = +1), |mu| <= 1/2, mu != 0
    val P = LP + mini(80, maxi(0, -bfTop(mu)))
    val S = 2^P
    val q = quarterSq(P, x)
    val nmu = bfNeg(mu)
    val n = 150
    val mf = bfFix(P, mu)
    val s0 = series(P, s, mu, q, n)._1
    val s1 = series(P, s, bfAdd(bfInt(1), mu), q, n)._1
    val t0 = series(P, s, nmu, q, n)._1
    val t1 = series(P, s, bfAdd(bfInt(-1), nmu), q, n)._1
    val lx = lnBF(P + 40, { m: x.m, e: x.e - 1 })
    val pw = expBF(P, shift(lx * mu.m, mu.e - 40))        // (x/2)^mu
    val gp = gammaPosBF(P, bfAdd(bfInt(1), mu))           // Gamma(1+mu)
    val sp = sinPiBF(P, mu)                                // sin(pi mu)
    val piB = { m: piFix(P + 8), e: -(P + 8) }
    // 1/Gamma(1-mu) = sin(pi mu) Gamma(1+mu) / (pi mu)
    val ign = bfDiv(P, bfMul(sp, gp), bfMul(piB, mu))
    val hx = { m: x.m, e: x.e - 1 }
    val cm0 = bfDiv(P + 8, pw, gp)                             // (x/2)^mu / Gamma(1+mu)
    val a0 = bfMul(cm0, { m: s0, e: -P })                      // C_mu
    val a1 = bfDiv(P + 8, bfMul(bfMul(cm0, hx), { m: s1, e: -P }), bfAdd(bfInt(1), mu)) // C_{mu+1}
    val cn0 = bfDiv(P + 8, ign, pw)                            // (x/2)^-mu / Gamma(1-mu)
    val b0 = bfMul(cn0, { m: t0, e: -P })                      // C_{-mu}
    // (x/2)^(-mu-1)/Gamma(-mu) = cn0 * (-mu) / (x/2)
    val b1 = bfDiv(P + 1300, bfMul(bfMul(cn0, nmu), { m: t1, e: -P }), hx)  // C_{-mu-1}
    val cs = sinCosPi(P, mu)._2
    if (s == -1) {
      // Y_m = (J_m cos(m pi) - J_{-m}) / sin(m pi)
      val y0 = bfDiv(P + 8, bfAdd({ m: bfFix(P, a0) * cs, e: -2 * P }, bfNeg(b0)), sp)
      val y1 = bfDiv(P + 1300, bfAdd({ m: -bfFix(P, a1) * cs, e: -2 * P }, bfNeg(b1)), bfNeg(sp))
      (bfFix(LP, y0), bfFix(LP, y1))
    } else {
      val h = { m: piFix(P + 8), e: -(P + 9) }
      val k0 = bfDiv(P + 8, bfMul(h, bfAdd(b0, bfNeg(a0))), sp)
      val k1 = bfDiv(P + 1300, bfMul(h, bfAdd(b1, bfNeg(a1))), bfNeg(sp))
      (bfFix(LP, k0), bfFix(LP, k1))
    }
  pure def nearPair(s: int, mu: BF, x: BF): (int, int) =
    if (mu.m == 0 or bfTop(mu) < -80) logPair(s, x) else fracPair(s, mu, x)

  // ---- the four functions ----
  pure def besselY(nu: BF, x: BF): Pair =
    val sp = split(nu)
    if (ge(x, 25)) {
      val mu1 = bfAdd(bfInt(1), sp._2)
      val r = upward(-1, sp._2, x, hankelJY(sp._2, x)._2, hankelJY(mu1, x)._2, sp._1, 1200 + HP)
      { a: { m: r._1, e: -HP }, b: { m: r._2, e: -HP }, ok: true }
    } else {
      val y = nearPair(-1, sp._2, x)
      val r = upward(-1, sp._2, x, y._1, y._2, sp._1, 1200 + LP)
      { a: { m: r._1, e: -LP }, b: { m: r._2, e: -LP }, ok: true }
    }
  pure def jAscending(P: int, nu: BF, x: BF): (BF, bool) =
    val xi = bfFix(0, x)
    val s = series(P, -1, nu, quarterSq(P, x), 40 + P / 4 + 2 * xi)
    (bfMul(prefactor(120, nu, x), { m: s._1, e: -P }), abs(s._2) <= 2)
  pure def besselJ(nu: BF, x: BF): Pair =
    val nu1 = bfAdd(bfInt(1), nu)
    if (not(ge(x, 25)) or not(ge(x, 2 + bfFix(0, nu)))) {
      val P = 170 + bfFix(0, x)
      val j0 = jAscending(P, nu, x)
      val j1 = jAscending(P, nu1, x)
      { a: j0._1, b: j1._1, ok: j0._2 and j1._2 }
    } else {
      val sp = split(nu)
      val mu1 = bfAdd(bfInt(1), sp._2)
      val r = upward(-1, sp._2, x, hankelJY(sp._2, x)._1, hankelJY(mu1, x)._1, sp._1, 1200 + HP)
      { a: { m: r._1, e: -HP }, b: { m: r._2, e: -HP }, ok: true }
    }
  pure def besselI(nu: BF, x: BF): Pair =
    val P = 120
    val q = quarterSq(P, x)
    val xi = bfFix(0, x)
    val n = xi / 2 + 12 * isqrt(xi + 1) + 40
    val s0 = series(P, 1, nu, q, n)
    val nu1 = bfAdd(bfInt(1), nu)
    val s1 = series(P, 1, nu1, q, n)
    val p0 = prefactor(P, nu, x)
    val p1 = prefactor(P, nu1, x)
    { a: bfMul(p0, { m: s0._1, e: -P }), b: bfMul(p1, { m: s1._1, e: -P }),
      ok: s0._2 * 2^90 <= s0._1 and s1._2 * 2^90 <= s1._1 }
  // sqrt(pi/(2x)) e^-x sum a_k(mu)/x^k , without the exponential: at HP
  pure def kTail(mu: BF, x: BF): int =
    val S = 2^HP
    val m4 = 4 * bfFix(HP, bfMul(mu, mu))
    val xi = bfFix(HP, bfDiv(HP + 8, bfInt(1), bfMul(bfInt(8), x)))
    val s = range(1, 50).foldl((S, S), (t, k) =>
      val u = t._1 * (m4 - (2 * k - 1) * (2 * k - 1) * S) / S * xi / S / k
      (u, t._2 + u))._2
    s * sqrtTwoOverPiX(x) / S * piFix(HP) / (2 * S)
  pure def besselK(nu: BF, x: BF): Pair =
    val sp = split(nu)
    if (ge(x, 25)) {
      val r = upward(1, sp._2, x, kTail(sp._2, x), kTail(bfAdd(bfInt(1), sp._2), x), sp._1, 2400 + HP)
      val ex = expBF(120, -bfFix(120, x))
      { a: bfMul({ m: r._1, e: -HP }, ex), b: bfMul({ m: r._2, e: -HP }, ex), ok: true }
    } else {
      val y = nearPair(1, sp._2, x)
      val r = upward(1, sp._2, x, y._1, y._2, sp._1, 1200 + LP)
      { a: { m: r._1, e: -LP }, b: { m: r._2, e: -LP }, ok: true }
    }
}
