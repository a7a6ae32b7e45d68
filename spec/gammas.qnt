// Reference definitions of the gamma family, from their mathematical definitions.
module gammas {
  import num.* from "./num"

  // ---- Bernoulli numbers through tangent numbers (Brent and Harvey) ----
  pure val NB: int = 70
  pure val TANGENT: List[int] = {
    // T[k] = (k-1)! initially, k = 1..NB
    val t0 = range(2, NB + 1).foldl([1], (l, k) => l.append(l[k - 2] * (k - 1)))
    range(2, NB + 1).foldl(t0, (l, k) =>
      range(k - 1, NB).foldl(l, (m, j) =>
        m.replaceAt(j, (j + 1 - k) * m[j - 1] + (j + 3 - k) * m[j])))
  }
  // B_{2k} / (2k (2k-1)) at precision CP, k = 1..NB (index k-1)
  pure val STIRLING: List[int] =
    range(1, NB + 1).foldl([], (l, k) => {
      val p = 2^(2 * k)
      val b = 2 * k * TANGENT[k - 1] * CS / (p * (p - 1))
      val c = b / (2 * k * (2 * k - 1))
      l.append(if (k % 2 == 1) c else -c)
    })

  // ln Gamma of a positive BF, as fixed at P (P <= 320)
  pure def lnGammaFix(P: int, x: BF): int =
    val G = P + 24
    val S = 2^G
    val small = bfTop(x) < 1                  // x < 1: use ln Gamma(1+x) - ln x
    val x1 = if (small) S + bfFix(G, x) else bfFix(G, x)
    val need = G / 4
    val n0 = need - x1 / S
    val n = maxi(0, n0)
    val prod = range(0, n).foldl(S, (acc, i) => acc * (x1 + i * S) / S)
    val z = x1 + n * S
    val lz = lnFix(G, z)
    // 1/z at precision up to G + size of z
    val zi = S * S / z
    val zi2 = zi * zi / S
    val K = if (z > S * 2^60) 3 else G / 6 + 2
    val st = range(0, K).foldl(0, (acc, i) => acc * zi2 / S + STIRLING[K - 1 - i] / 2^(CP - G)) * zi / S
    val halfLn2Pi = (ln2Fix(G) + lnFix(G, piFix(G))) / 2
    val lg = (z - S / 2) * lz / S - z + halfLn2Pi + st - (if (n > 0) lnFix(G, prod) else 0)
    (if (small) lg - lnBF(G, x) else lg) / 2^24

  // Gamma of a positive BF
  pure def gammaPosBF(P: int, x: BF): BF =
    expBF(P, lnGammaFix(P + 16, x) / 2^16)

  // Gamma of a nonzero, non-pole BF of either sign
  pure def gammaBF(P: int, x: BF): BF =
    if (x.m > 0) gammaPosBF(P, x)
    else {
      // Gamma(x) Gamma(1-x) = pi / sin(pi x)
      val y = bfAdd(bfInt(1), bfNeg(x))
      val yt = bfTrim(1100 + P, y)
      val g = bfMul(sinPiBF(P + 8, x), gammaPosBF(P + 8, yt))
      bfDiv(P, { m: piFix(P + 8), e: -(P + 8) }, g)
    }

  // 1 / Gamma(x), entire: also defined (as 0) at the poles
  pure def factorialInt(n: int): int = range(1, n + 1).foldl(1, (a, k) => a * k)

  // ---- regularized incomplete gamma ----
  pure def beside(d: BF, unit: BF): bool = bfAdd({ m: abs(d.m), e: d.e }, { m: -unit.m, e: unit.e - 47 }).m <= 0
  // p: the lower function, fixed at precision IP; t: the side of the mean on which the argument lies
  // (the lower function if low), as a wide number with its own relative accuracy, down to 1e-50
  // near: so close to the boundary between the sides that rounding may decide which one the code takes
  type Incomplete = { p: int, ok: bool, t: int, low: bool, near: bool }
  pure val IP: int = 100
  // P(a, x) = x^a e^-x / Gamma(a+1) * sum x^n / ((a+1)...(a+n)), all terms positive.
  // a, x > 0 exact. ok = the series was summed to convergence.
  pure def terms(a: int, x: int, extra: int): int =
    // a, x rounded to integers; number of terms until the tail is negligible
    val over = maxi(0, x - a)
    over + 60 + extra + isqrt((80 + 2 * extra) * (a + over) + 3000 + 20 * extra * extra)
  // a ln x - x - lnGamma(a+1), fixed at P
  pure def lnFront(P: int, a: BF, x: BF): int =
    shift(lnBF(P + 40, x) * a.m, a.e - 40) - bfFix(P, x) - lnGammaFix(P, bfAdd(a, bfInt(1)))
  pure def gammaP(a: BF, x: BF): Incomplete =
    val P0 = IP + 28
    val le0 = lnFront(P0, a, x)
    val past = bfAdd(bfAdd(x, bfNeg(a)), bfInt(-1))
    val low = past.m < 0
    val near = beside(past, bfAdd(a, bfInt(1)))
    if (le0 < -(2000 * 2^P0)) {
      // x^a e^-x / Gamma(a+1) < e^-2000: either tail, decided by the side of the mode
      val right = bfAdd(x, bfNeg(a)).m > 0
      { p: if (right) 2^IP else 0, ok: true, t: if (right == low) WONE else 0, low: low, near: near }
    } else {
      // the upper tail is a difference from one: as many bits more as it is small
      val extra = if (low) 0 else mini(180, maxi(0, 40 - 3 * le0 / 2^(P0 + 1)))
      val P = P0 + extra
      val S = 2^P
      val av = bfFix(P, a)
      val xv = bfFix(P, x)
      val le = if (extra == 0) le0 else lnFront(P, a, x)
      val n = terms(av / S, xv / S, extra)
      val r = range(1, n + 1).foldl((S, S), (t, k) =>
        val u = t._1 * xv / (av + k * S)
        (u, t._2 + u))
      val pre = expBF(P, le)
      val p = mini(WONE, toWide({ m: pre.m * r._2, e: pre.e - P }))
      { p: mini(p / 2^(WP - IP), 2^IP), ok: r._1 <= r._2 / 2^(44 + extra), t: if (low) p else WONE - p, low: low, near: near }
    }

  // ---- beta and regularized incomplete beta ----
  pure def lnBeta(P: int, a: BF, b: BF): int =
    lnGammaFix(P, a) + lnGammaFix(P, b) - lnGammaFix(P, bfAdd(a, b))

  // Number of terms for the series in y with parameters p, q (all fixed at 2^-64)
  pure def betaTerms(p: int, q: int, y: int): int =
    val O = 2^64
    val om = maxi(1, O - y)
    val star = maxi(0, ((p + q) * y / O - p - O) * O / om)       // fixed at 64
    val D = p + O + star
    val tl = 70 * O * O / om / O + isqrt(80 * (D / O + 1) * (O * 2^10 / om)) / 32
    star / O + tl + 30
  // I_y(p,q) = y^p (1-y)^q / (p B(p,q)) * sum (p+q)_n / (p+1)_n y^n ; dens = ln of y^p (1-y)^q / B(p,q)
  pure def betaSeries(p: BF, q: BF, y: BF, dens: int, n: int): (int, bool) =
    val P = IP + 28
    val S = 2^P
    val le = dens - lnBF(P, p)
    val pv = bfFix(P, p)
    val s = pv + bfFix(P, q)
    val yv = bfFix(P, y)
    val r = range(0, n).foldl((S, S), (t, k) =>
      val u = t._1 * yv / S * (s + k * S) / (pv + (k + 1) * S)
      (u, t._2 + u))
    val pre = expBF(P, le)
    (mini(WONE, toWide({ m: pre.m * r._2, e: pre.e - P })), r._1 <= r._2 / 2^44)
  // 0 < x < 1
  pure def betaI(a: BF, b: BF, x: BF): Incomplete =
    val P = IP + 28
    val S = 2^P
    val z = bfAdd(bfInt(1), bfNeg(x))
    val dens = shift(lnBF(P + 40, x) * a.m, a.e - 40) + shift(lnBF(P + 40, z) * b.m, b.e - 40) - lnBeta(P, a, b)
    // the side: x < (a+1) / (a+b+2)
    val past = bfAdd(bfMul(x, bfAdd(bfAdd(a, b), bfInt(2))), bfNeg(bfAdd(a, bfInt(1))))
    val low = past.m < 0
    val near = beside(past, bfAdd(a, bfInt(1)))
    if (dens < -(150 * S)) {
      // On the left of the mean the series is bounded by 1e9 times the density: 0 to 1e-50,
      // and symmetrically 1 on the right.
      val left = bfAdd(bfMul(x, bfAdd(a, b)), bfNeg(a)).m < 0
      { p: if (left) 0 else 2^IP, ok: true, t: if (left == low) 0 else WONE, low: low, near: near }
    } else {
      val a6 = bfFix(64, a)
      val b6 = bfFix(64, b)
      val n1 = betaTerms(a6, b6, bfFix(64, x))
      val n2 = betaTerms(b6, a6, bfFix(64, z))
      if (mini(n1, n2) > 200000) { p: 0, ok: false, t: 0, low: low, near: near }
      else {
        val lower = if (low) n1 <= 20 * n2 + 1000 else 20 * n1 + 1000 < n2
        val r = if (lower) betaSeries(a, b, x, dens, n1) else betaSeries(b, a, z, dens, n2)
        // a small side taken as a complement has lost its relative accuracy: sum it directly
        val again = lower != low and WONE - r._1 < WONE / 2^50
        val r2 = if (not(again)) r else if (lower) betaSeries(b, a, z, dens, n2) else betaSeries(a, b, x, dens, n1)
        val p = if (lower != again) r2._1 else WONE - r2._1
        { p: p / 2^(WP - IP), ok: r2._2, t: if (low) p else WONE - p, low: low, near: near }
      }
    }
}
