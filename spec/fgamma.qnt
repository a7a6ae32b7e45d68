// The gamma and beta families.
module fgamma {
  import num.* from "./num"
  import ieee.* from "./ieee"
  import core.* from "./core"
  import gammas.* from "./gammas"

  // ---------------------------------------------------------------- gamma family
  // Largest argument with a finite gamma value lies between these two doubles
  pure val GMAX_LO: BF = { m: 1716243769563026, e: 0 }      // * 10^-13
  pure def aboveGmax(x: BF): int =
    // -1: below 171.6243769563026, +1: above 171.6243769563028, 0 between
    val t = bfFix(200, x) * 10^13
    if (t < 1716243769563026 * 2^200) -1 else if (t > 1716243769563028 * 2^200) 1 else 0
  pure def isIntegerBF(x: BF): bool = x.e >= 0 or x.m % 2^(-x.e) == 0
  pure def judgeGamma(b: int, r: int): V =
    if (isNaN(b) or b == NINF) need(isNaN(r), C_SPECIAL)
    else if (b == PINF or b == 0) need(r == PINF, C_SPECIAL)
    else if (b == SIGN) need(r == NINF, C_SPECIAL)
    else {
      val x = val64(b)
      if (x.m < 0 and isIntegerBF(x)) need(isNaN(r), C_SPECIAL)
      else if (x.m > 0 and aboveGmax(x) == 1) need(r == PINF, C_SPECIAL)
      else if (isNaN(r)) reject(C_NAN)
      else {
        val w = toWide(gammaBF(90, x))
        val over = (abs(w) >= MAXW - MAXW / 10^13)
        if (isInf(r)) need(over and (isNeg(r) == (w < 0)), C_VALUE)
        else if (abs(w) > MAXW + MAXW / 10^13) reject(C_VALUE)
        // below -170 the product of the reduction may overflow although gamma itself is representable
        else near(wide(r), w, maxi(abs(w) / 10^13, if (x.m < 0 and bfFix(20, x) <= -170 * 2^20) ten(-290) else 0))
      }
    }
  pure def judgeLnGamma(b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else if (isNeg(b) or isZero(b) or isInf(b)) PASS
    else {
      val z = wide(b)
      if (z < ten(-300) or z > ten(300)) PASS
      else {
        val w = fromFix(128, lnGammaFix(128, val64(b)))
        nearBits(r, w, maxi(WONE, abs(w)) / 10^10 * 2)
      }
    }
  pure def judgeFactorial(n: int, r: int): V =
    if (n >= 171) need(r == PINF, C_SPECIAL)
    else {
      val w = factorialInt(n) * WONE
      if (n <= 22) need(not(isInf(r)) and not(isNaN(r)) and wide(r) == w, C_SPECIAL)
      else nearBits(r, w, w / 10^13)
    }

  // A value with the accuracy of the side t of the mean: relative to t, both for the function that
  // computes t and (plus rounding) for its complement.  What is below flush may be 0, or 1.
  pure def scale(i: Incomplete): int = if (i.near) maxi(i.t, WONE - i.t) else i.t
  pure def sideTol(i: Incomplete, own: bool, rel: int, extra: int): int =
    wmul(rel, scale(i)) + extra + ten(-50) + (if (own and not(i.near)) 0 else WONE / 2^50)
  pure def sided(r: int, i: Incomplete, lower: bool, rel: int, flush: int, extra: int): V =
    val own = lower == i.low
    val v = if (own) i.t else WONE - i.t
    if (isNaN(r)) reject(C_NAN)
    else if (i.t < flush and wide(r) == (if (own) 0 else WONE)) PASS
    else nearBits(r, v, sideTol(i, own, rel, extra))
  // rel = 1e-9 + 2e-14 a
  pure def domP(a: int, x: int): bool = inRange(a, ten(-9), ten(6)) and not(isNaN(x)) and not(isNeg(x) and not(isZero(x)))
  pure def lower(i: Incomplete): int = if (i.low) i.t else WONE - i.t
  // regularized lower incomplete gamma as a wide number, x any nonnegative double
  pure def refP(a: int, x: int): (int, bool) =
    if (isZero(x)) (0, true)
    else if (isInf(x)) (WONE, true)
    else {
      val r = gammaP(val64(a), val64(x))
      (lower(r), r.ok)
    }
  pure def judgeGammPQ(q: bool, a: int, x: int, r: int): V =
    if (not(domP(a, x))) PASS
    else if (isZero(x)) need(r == (if (q) ONE else 0) or (not(q) and isZero(r)), C_SPECIAL)
    else {
      val i = if (isInf(x)) { p: 2^IP, ok: true, t: 0, low: false, near: false } else gammaP(val64(a), val64(x))
      if (not(i.ok)) reject(C_REF) else {
        // the quadrature for a >= 100 loses relative accuracy far out on the left
        val deep = if (i.low and wide(a) >= 100 * WONE) ten(-30) else 0
        sided(r, i, not(q), tolP(val64(a)), 3 * ten(-13), wmul(tolP(val64(a)), deep))
      }
    }
  // p lies between the values of an increasing function at lo and hi, within t: share of t used
  // x * (1 + s 10^-13) as a positive BF
  pure def nudge(x: BF, s: int): BF = bfTrim(200, bfDiv(200, bfMul(x, bfInt(10^13 + s)), bfInt(10^13)))
  pure def pWide(a: BF, x: BF): (int, bool) = val r = gammaP(a, x) (lower(r), r.ok)
  // how far an inverse may miss its argument at x: the accuracy of the function there
  // (a lower tail below 1e-15 is only inverted to within a factor)
  pure def miss(i: Incomplete, rel: int): int =
    (if (i.low and i.t < ten(-15)) 20 * i.t else 2 * wmul(rel, scale(i))) + ten(-50) + (if (i.low and not(i.near)) 0 else ten(-15))
  pure def missP(a: BF, x: BF): int = miss(gammaP(a, x), tolP(a))
  pure def judgeInvgammp(p: int, a: int, r: int): V =
    if (isNaN(p) or not(posFinite(a))) PASS
    else if (isZero(p) or isNeg(p)) need(isZero(r), C_SPECIAL)
    else if (p >= ONE) {
      if (wide(a) > ten(300)) PASS
      else {
        val af = wide(a)
        val w = maxi(100 * WONE, af + 100 * isqrt(af * WONE))
        nearBits(r, w, w / 10^12)
      }
    }
    else if (not(inRange(a, ten(-4), ten(6))) or not(inRange(p, ten(-250), WONE - ten(-12)))) PASS
    else if (isNaN(r)) reject(C_NAN)
    else if (isInf(r) or (isNeg(r) and not(isZero(r)))) reject(C_VALUE)
    else {
      val av = val64(a)
      val t = if (isZero(r)) 0 else missP(av, val64(r))
      val pw = wide(p)
      val tiny = toWide(val64(r)) < ten(-289)
      val lowOk = if (tiny) pWide(av, bfDiv(80, bfInt(1), bfInt(10^290))) else (0, true)
      if (tiny and lowOk._1 + t >= pw) PASS
      else if (isZero(r)) reject(C_VALUE)
      else {
        val x = val64(r)
        val lo = pWide(av, nudge(x, -1))
        val hi = pWide(av, nudge(x, 1))
        if (not(lo._2) or not(hi._2)) reject(C_REF) else bracket(pw, lo._1, hi._1, t)
      }
    }

  // ---------------------------------------------------------------- beta family
  pure def judgeBeta(z: int, w: int, r: int): V =
    if (not(inRange(z, ten(-9), ten(6))) or not(inRange(w, ten(-9), ten(6)))) PASS
    else {
      val zv = val64(z)
      val wv = val64(w)
      val v = toWide(expBF(100, lnBeta(140, zv, wv) / 2^40))
      if (v < ten(-306)) (if (isNaN(r)) reject(C_NAN) else need(not(isNeg(r)) and not(isInf(r)) and wide(r) < 2 * ten(-306), C_VALUE))
      else nearBits(r, v, v / 10^9 + v * ((wide(z) + wide(w)) / 2^1136) / 2^64 / 10^13)
    }
  pure def goodI(a: int, b: int, x: int): bool =
    inRange(a, ten(-6), ten(6)) and inRange(b, ten(-6), ten(6)) and domBetai(a, b, x)
  pure def refI(a: BF, b: BF, x: BF): (int, bool) =
    if (x.m <= 0) (0, true)
    else if (bfAdd(x, bfInt(-1)).m >= 0) (WONE, true)
    else { val r = betaI(a, b, x) (lower(r), r.ok) }
  pure def missI(a: BF, b: BF, x: BF): int =
    if (x.m <= 0) ten(-50)
    else if (bfAdd(x, bfInt(-1)).m >= 0) ten(-15)
    else {
      val i = betaI(a, b, x)
      2 * wmul(tolI(a, b), scale(i)) + ten(-50) + (if (i.low and not(i.near)) 0 else ten(-15))
    }
  pure def judgeBetai(a: int, b: int, x: int, r: int): V =
    if (not(goodI(a, b, x))) PASS
    else if (isZero(x)) need(isZero(r), C_SPECIAL)
    else if (x == ONE) need(r == ONE, C_SPECIAL)
    else {
      val i = betaI(val64(a), val64(b), val64(x))
      // 2e-8 relative to the side (tolI absolute at most)
      if (not(i.ok)) reject(C_REF)
      else sided(r, i, true, mini(10 * tolI(val64(a), val64(b)), tolI(val64(a), val64(b)) * WONE / maxi(scale(i), 1)), 0, 0)
    }
  pure def judgeInvbetai(p: int, a: int, b: int, r: int): V =
    if (isNaN(p) or not(posFinite(a)) or not(posFinite(b))) PASS
    else if (isZero(p) or isNeg(p)) need(isZero(r), C_SPECIAL)
    else if (p >= ONE) need(r == ONE, C_SPECIAL)
    else if (not(inRange(a, ten(-3), ten(5))) or not(inRange(b, ten(-3), ten(5)))
             or not(inRange(p, ten(-20), WONE - ten(-15)))) PASS
    else if (isNaN(r)) reject(C_NAN)
    else if (not(isZero(r)) and (isNeg(r) or r > ONE)) reject(C_VALUE)
    else {
      val xw = wide(r)
      val d = xw / 10^13 + ten(-290)
      val av = val64(a)
      val bv = val64(b)
      val lo = refI(av, bv, bfTrim(400, { m: maxi(0, xw - d), e: -WP }))
      val hi = refI(av, bv, bfTrim(400, { m: mini(WONE, xw + d), e: -WP }))
      if (not(lo._2) or not(hi._2)) reject(C_REF) else bracket(wide(p), lo._1, hi._1, missI(av, bv, val64(r)))
    }

  pure def gammaStep(a: BF, x: BF): int =
    val P = 160
    val l = lnBF(P + 40, x)
    val e = shift(l * a.m, a.e - 40) - bfFix(P, x) - lnGammaFix(P, bfAdd(a, bfInt(1)))
    if (e < -(900 * 2^P)) 0 else toWide(expBF(100, e / 2^60))
  pure def lawPRec(g: List[Ev]): V =
    if (isZero(g[0].b)) PASS
    else {
      val d = gammaStep(val64(g[0].a), val64(g[0].b))
      val s = if (g[0].fn == GAMMQ) -1 else 1
      lawNear(s * (R(g[0]) - R(g[1])), d, 2 * tolOf(g[1]))
    }
  pure def lawBSym(g: List[Ev]): V =
    relLaw(R(g[0]), R(g[1]), (WONE + wide(g[0].a) + wide(g[0].b)) / 10^12)
  pure def lawBPow(e: Ev): V =
    val x = val64(e.c)
    val z = bfAdd(bfInt(1), bfNeg(x))
    val t = tolOf(e)
    val v1 = if (e.b == ONE) lawNear(R(e), toWide(powBF(160, x, val64(e.a))), t) else PASS
    val v2 = if (e.a == ONE) lawNear(R(e), WONE - toWide(powBF(160, z, val64(e.b))), t) else PASS
    worse(v1, v2)
  pure def lawGammaFact(g: List[Ev]): V =
    // gamma(n), factorial(n-1)
    if (g[0].r == PINF or g[1].r == PINF) lawNeed(g[0].r == g[1].r)
    else relLaw(R(g[0]), R(g[1]), ten(-13))
  pure def lawFactRec(g: List[Ev]): V =
    // factorial(n), factorial(n+1)
    if (g[1].r == PINF) lawNeed(g[0].a + 1 >= 171)
    else if (g[0].r == PINF) reject(C_LAW)
    else relLaw((g[0].a + 1) * R(g[0]), R(g[1]), ten(-13))

  pure def lawLnGamma(g: List[Ev]): V =
    // gamma(x), ln_gamma(x), x > 0
    if (not(usable(g[0].r)) or R(g[0]) < ten(-280)) PASS
    else {
      val l = fromFix(100, lnBF(100, val64(g[0].r)))
      lawNear(R(g[1]), l, maxi(WONE, abs(l)) / 10^10 * 3)
    }
  pure def lawGammaRec(g: List[Ev]): V =
    // gamma(x), gamma(x+1)
    if (not(usable(g[0].r)) or not(usable(g[1].r)) or mini(abs(R(g[0])), abs(R(g[1]))) < ten(-270)) PASS
    else relLaw(toWide(bfMul(val64(g[0].a), val64(g[0].r))), R(g[1]), 3 * ten(-13))
  pure def lawBetaGamma(g: List[Ev]): V =
    // beta(a,b), gamma(a), gamma(b), gamma(a+b) with a+b exact
    if (not(usable(g[0].r)) or not(usable(g[1].r)) or not(usable(g[2].r)) or not(usable(g[3].r))
        or R(g[0]) < ten(-280)) PASS
    else {
      val p = toWide(bfTrim(200, bfMul(val64(g[0].r), val64(g[3].r))))
      val q = toWide(bfTrim(200, bfMul(val64(g[1].r), val64(g[2].r))))
      if (maxi(p, q) >= ten(300) or mini(p, q) < ten(-280)) PASS else relLaw(p, q, 2 * ten(-9))
    }
  pure def lawPErf(g: List[Ev]): V = lawNear(R(g[0]), R(g[1]), ten(-9) + ten(-13))
  pure def lawPoisson(e: Ev): V =
    // gammq(n+1, x), n+1 = order as an integer double up to 400
    val P = 200
    val S = 2^P
    val x = val64(e.b)
    val xv = bfFix(P, x)
    val n = bfFix(0, val64(e.a)) - 1
    val s = range(1, n + 1).foldl((S, S), (t, k) => val u = t._1 * xv / S / k (u, t._2 + u))._2
    val q = toWide(bfTrim(300, bfMul({ m: s, e: -P }, expBF(P, -xv))))
    lawNear(R(e), q, tolOf(e))
  pure def binom(n: int, k: int): int = range(1, k + 1).foldl(1, (a, i) => a * (n - k + i) / i)
  pure def lawBinomial(e: Ev): V =
    // betai(k, n-k+1, p) = sum_{j>=k} C(n,j) p^j (1-p)^(n-j)
    val P = 240
    val S = 2^P
    val k = bfFix(0, val64(e.a))
    val n = bfFix(0, val64(e.b)) + k - 1
    val p = bfFix(P, val64(e.c))
    val q = S - p
    val pk = range(0, k).foldl(S, (a, _i) => a * p / S)
    // Horner-free: p^j q^(n-j) from tables of powers of q
    val qs = range(0, n - k).foldl([S], (l, i) => l.append(l[i] * q / S))
    val r = range(k, n + 1).foldl((pk, binom(n, k), 0), (t, j) =>
      (t._1 * p / S, t._2 * (n - j) / (j + 1), t._3 + t._2 * (t._1 * qs[n - j] / S)))
    lawNear(R(e), fromFix(P, r._3), tolOf(e))
  pure def lawInvgammp(g: List[Ev]): V =
    val a = g[0].a
    if (not(inRange(g[0].r, ten(-12), WONE - ten(-12))) or isZero(g[1].r)) PASS
    else {
      val av = val64(a)
      val x0 = refP(a, g[0].b)
      val lo = pWide(av, nudge(val64(g[1].r), -1))
      val hi = pWide(av, nudge(val64(g[1].r), 1))
      if (not(x0._2) or not(lo._2) or not(hi._2)) reject(C_REF) else asLaw(bracket(x0._1, lo._1, hi._1, 2 * missP(av, val64(g[1].r))))
    }
  pure def lawInvbetai(g: List[Ev]): V =
    if (not(inRange(g[0].r, ten(-10), WONE - ten(-10)))) PASS
    else {
      val av = val64(g[0].a)
      val bv = val64(g[0].b)
      val xw = wide(g[1].r)
      val d = xw / 10^13 + ten(-290)
      val x0 = refI(av, bv, val64(g[0].c))
      val lo = refI(av, bv, bfTrim(400, { m: maxi(0, xw - d), e: -WP }))
      val hi = refI(av, bv, bfTrim(400, { m: mini(WONE, xw + d), e: -WP }))
      if (not(x0._2) or not(lo._2) or not(hi._2)) reject(C_REF) else asLaw(bracket(x0._1, lo._1, hi._1, 2 * missI(av, bv, val64(g[1].r))))
    }
  pure def lawInvMono(g: List[Ev]): V =
    if (R(g[0]) <= R(g[1])) PASS
    else if (isZero(g[1].r)) {
      val av = val64(g[0].b)
      val x = pWide(av, nudge(val64(g[0].r), -1))
      asLaw(bracket(0, x._1, x._1, 2 * missP(av, val64(g[0].r))))
    }
    else {
      val av = val64(g[0].b)
      val x = pWide(av, nudge(val64(g[0].r), -1))
      val y = pWide(av, nudge(val64(g[1].r), 1))
      if (x._1 <= y._1) PASS else lawNear(x._1, y._1, 2 * missP(av, val64(g[1].r)))
    }

  pure def judgeValue(v: Ev): V =
    if (v.out == -2) reject(C_HANG)
    else if (mustPanic(v) or (v.out == -1 and mayPanic(v))) PASS
    else if (v.out == -1) reject(C_PANIC)
    else if (v.fn == GAMMA) judgeGamma(v.a, v.r)
    else if (v.fn == LN_GAMMA) judgeLnGamma(v.a, v.r)
    else if (v.fn == FACTORIAL) judgeFactorial(v.a, v.r)
    else if (v.fn == GAMMP) judgeGammPQ(false, v.a, v.b, v.r)
    else if (v.fn == GAMMQ) judgeGammPQ(true, v.a, v.b, v.r)
    else if (v.fn == INVGAMMP) judgeInvgammp(v.a, v.b, v.r)
    else if (v.fn == BETA) judgeBeta(v.a, v.b, v.r)
    else if (v.fn == BETAI) judgeBetai(v.a, v.b, v.c, v.r)
    else if (v.fn == INVBETAI) judgeInvbetai(v.a, v.b, v.c, v.r)
    else reject(C_REF)
  pure def judgeLaw(l: int, g: List[Ev]): V =
    if (l == L_RANGE or l == L_ODD or l == L_PARITY or l == L_PAIR or l == L_MONO or l == L_SUM1) (
      if (l == L_PAIR or allReturned(g)) judgeSharedLaw(l, g) else reject(C_PANIC))
    else if (not(allReturned(g))) reject(C_PANIC)
    else if (l == L_GAMMA_FACT) lawGammaFact(g)
    else if (l == L_FACT_REC) lawFactRec(g)
    else if (l == L_LNGAMMA) lawLnGamma(g)
    else if (l == L_GAMMA_REC) lawGammaRec(g)
    else if (l == L_BETA_GAMMA) lawBetaGamma(g)
    else if (not(allFinite(g))) reject(C_NAN)
    else if (l == L_PREC) lawPRec(g)
    else if (l == L_BSYM) lawBSym(g)
    else if (l == L_BPOW) lawBPow(g[0])
    else if (l == L_P_ERF) lawPErf(g)
    else if (l == L_POISSON) lawPoisson(g[0])
    else if (l == L_BINOMIAL) lawBinomial(g[0])
    else if (l == L_INVGAMMP) lawInvgammp(g)
    else if (l == L_INVBETAI) lawInvbetai(g)
    else if (l == L_INVMONO) lawInvMono(g)
    else reject(C_REF)
}
