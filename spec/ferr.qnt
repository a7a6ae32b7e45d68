// The error functions, Dawson integral and Faddeeva function.
module ferr {
  import num.* from "./num"
  import ieee.* from "./ieee"
  import core.* from "./core"
  import errs.* from "./errs"

  // ---------------------------------------------------------------- error functions
  // clamp an argument so that the references stay cheap: beyond 2^11 nothing changes
  pure def clampX(b: int): BF =
    if (isInf(b) or bfTop(val64(b)) > 11) bfInt(if (isNeg(b)) -2048 else 2048) else val64(b)
  pure def judgeErf(b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else nearBits(r, toWide(erfRef(clampX(b))), ten(-14))
  pure def judgeErfc(b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else {
      val w = toWide(erfcRef(clampX(b)))
      val v = nearBits(r, w, ten(-14))
      if (not(isNeg(b)) and not(isInf(b))) worse(v, nearBits(r, w, maxi(w / 10^11, ten(-320)))) else v
    }
  pure def judgeErfcx(b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else if (isInf(b)) (if (isNeg(b)) need(r == PINF, C_SPECIAL) else need(isZero(r), C_SPECIAL))
    else {
      val x = val64(b)
      val lo = 10 * bfFix(64, x)
      if (x.m < 0 and (bfTop(x) > 20 or lo <= -268 * 2^64)) need(r == PINF, C_SPECIAL)
      else if (x.m < 0 and lo < -266 * 2^64) PASS
      else {
        val w = toWide(erfcxRef(x))
        val k = if (x.m < 0) 1 + abs(bfFix(0, x)) * abs(bfFix(0, x)) else 1
        nearBits(r, w, maxi(ten(-320), w / 10^14 * k))
      }
    }
  // 2/sqrt(pi) exp(-x^2), wide
  pure def erfSlope(x: BF): int = toWide(bfMul(TWO_SQRTPI, expBF(EP, -sq(x))))
  // The true inverse lies within d = 1e-13 max(|x|,1) + 1e-15/erf'(x) of x; g(y) = f(y) is
  // monotone, so f(x - d) and f(x + d) must enclose p.
  pure def invTol(x: BF, coarse: bool): int =
    maxi(WONE, toWide(absBF(x))) / 10^13
    + (if (coarse) ten(-15) * WONE / maxi(erfSlope(x), 1) else 0)
  pure def judgeInverfc(b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else if (isNeg(b) or isZero(b)) need(r == HUNDRED, C_SPECIAL)
    else if (b >= dbl(2)) need(r == HUNDRED + SIGN, C_SPECIAL)
    else if (isNaN(r)) reject(C_NAN)
    else if (isInf(r)) reject(C_VALUE)
    else if (not(inRange(b, ten(-307), 2 * WONE - ten(-15)))) PASS
    else if (abs(wide(r)) > 30 * WONE) reject(C_VALUE)
    else {
      val x = val64(r)
      val d = invTol(x, b > ONE)
      encloseV(wide(b), toWide(erfcRef(wideBF(wide(r) - d))), toWide(erfcRef(wideBF(wide(r) + d))))
    }
  pure def judgeInverf(b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else if (not(isNeg(b)) and b >= ONE) need(r == HUNDRED, C_SPECIAL)
    else if (isNeg(b) and magBits(b) >= ONE) need(r == HUNDRED + SIGN, C_SPECIAL)
    else if (isNaN(r)) reject(C_NAN)
    else if (isInf(r)) reject(C_VALUE)
    else if (abs(wide(b)) > WONE - ten(-15)) PASS
    else if (abs(wide(r)) > 30 * WONE) reject(C_VALUE)
    else {
      val d = invTol(val64(r), true)
      encloseV(wide(b), toWide(erfRef(wideBF(wide(r) - d))), toWide(erfRef(wideBF(wide(r) + d))))
    }
  pure def judgeDawson(b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else if (isInf(b)) need(isZero(r), C_SPECIAL)
    else if (isZero(b)) need(isZero(r), C_SPECIAL)
    else {
      val w = toWide(dawsonRef(val64(b)))
      nearBits(r, w, maxi(abs(w) / 10^6, ten(-320)))
    }

  // squared modulus on wide numbers keeps 2400 fractional bits
  // accuracy of w(z) relative to |w(z)|, in units of 10^-18, or -1 outside the stated domain
  pure def faddeevaTol(x: BF, y: BF): int =
    val ax = toWide({ m: abs(x.m), e: x.e })
    val ay = toWide({ m: abs(y.m), e: y.e })
    val nearReal = ay <= ax / 10^8
    if (y.m >= 0) {
      if (maxi(ax, ay) > ten(300) - ten(299)) -1
      else if (nearReal) 10^12 else 10^6
    } else {
      // below the axis w(z) = 2 exp(-z^2) - w(-z); |exp(-z^2)| = exp(y^2 - x^2)
      val big = maxi(bfTop(x), bfTop(y))
      val z2 = bfFix(64, bfAdd(bfMul(x, x), bfMul(y, y)))
      val d = bfFix(64, bfAdd(bfMul(x, x), bfNeg(bfMul(y, y))))
      if (maxi(ax, ay) > ten(300) - ten(299)) -1
      else if (d >= 2^78 or (d >= 800 * 2^64 and big <= 10)) (if (nearReal) 10^12 else 10^6)   // the exponential is negligible
      else if (big > 10 or d < -650 * 2^64) -1
      else if (nearReal) 10^12
      else 10^6 + 4000 * z2 / 2^64
           + (if (ax <= ay / 10^8) {
                val p = bfMul(bfInt(2), bfMul(x, y))
                bfFix(0, bfMul(bfMul(p, p), bfInt(10^18)))
              } else 0)
    }
  pure def nearComplex(r: int, s: int, wr: int, wi: int, tol18: int): V =
    if (isNaN(r) or isNaN(s)) reject(C_NAN)
    else if (isInf(r) or isInf(s)) reject(C_VALUE)
    else {
      val m = isqrt(mod2(wr, wi))
      val d = isqrt(mod2(wide(r) - wr, wide(s) - wi))
      near(d, 0, m * tol18 / 10^18 + 1)
    }
  pure def judgeFaddeeva(x: int, y: int, r: int, s: int): V =
    if (not(finite2(x, y))) PASS
    else {
      val t = faddeevaTol(val64(x), val64(y))
      if (t < 0) PASS
      else {
        val w = faddeevaRef(val64(x), val64(y))
        nearComplex(r, s, toWide(w.re), toWide(w.im), t)
      }
    }

  pure def lawErfcRefl(g: List[Ev]): V = lawNear(R(g[0]) + R(g[1]), 2 * WONE, ten(-14))

  pure def lawConj(g: List[Ev]): V =
    val t = faddeevaTol(val64(g[0].a), val64(g[0].b))
    if (t < 0) PASS
    else if (not(allFinite(g))) reject(C_NAN)
    else {
      val m = isqrt(mod2(R(g[0]), wide(g[0].s)))
      lawNear(isqrt(mod2(R(g[0]) - R(g[1]), wide(g[0].s) + wide(g[1].s))), 0, 2 * (m * t / 10^18) + ten(-300))
    }
  pure def lawFadRefl(g: List[Ev]): V =
    val x = val64(g[0].a)
    val y = val64(g[0].b)
    val t1 = faddeevaTol(x, y)
    val t2 = faddeevaTol(bfNeg(x), bfNeg(y))
    if (t1 < 0 or t2 < 0) PASS
    else {
      val e = expMinusZ2(x, y)
      val tol = isqrt(mod2(R(g[0]), wide(g[0].s))) * t1 / 10^18 + isqrt(mod2(R(g[1]), wide(g[1].s))) * t2 / 10^18
      val dr = R(g[0]) + R(g[1]) - 2 * toWide(e.re)
      val di = wide(g[0].s) + wide(g[1].s) - 2 * toWide(e.im)
      lawNear(isqrt(mod2(dr, di)), 0, tol + ten(-300))
    }
  pure def lawFadImag(g: List[Ev]): V =
    // faddeeva(0,y), erfcx(y)
    if (isInf(g[1].r)) lawNeed(isInf(g[0].r) or isNaN(g[0].r) or wide(g[0].r) >= ten(300))
    else if (not(fin(g[0].r))) reject(C_LAW)
    else worse(relLaw(R(g[0]), R(g[1]), ten(-13)), lawNeed(isZero(g[0].s)))
  pure def lawFadReal(g: List[Ev]): V =
    // faddeeva(x,0), dawson(x)
    val x = clampX(g[0].a)
    val e = if (bfTop(x) > 6) 0 else toWide(expBF(EP, -sq(x)))
    val im = toWide(bfMul({ m: R(g[1]), e: -WP }, TWO_SQRTPI))
    worse(lawNear(R(g[0]), e, ten(-14)), lawNear(wide(g[0].s), im, maxi(abs(im) / 10^12, ten(-300))))

  pure def lawErfcx(g: List[Ev]): V =
    // erfcx(x), erfc(x), |x| <= 26
    val e = expBF(EP, -sq(val64(g[0].a)))
    if (not(fin(g[0].r))) PASS
    else {
      val w = toWide(bfTrim(300, bfMul(val64(g[0].r), e)))
      lawNear(w, R(g[1]), w / 10^11 + ten(-305) + (if (isNeg(g[0].a)) ten(-14) * 10 else 0))
    }
  pure def lawInverf(g: List[Ev]): V =
    val x = val64(g[0].a)
    lawNear(R(g[1]), wide(g[0].a), ten(-12) + ten(-15) * WONE / maxi(1, erfSlope(x)))
  pure def lawInverfc(g: List[Ev]): V =
    val x = val64(g[0].a)
    lawNear(R(g[1]), wide(g[0].a), ten(-12) + (if (isNeg(g[0].a)) ten(-15) * WONE / maxi(1, erfSlope(x)) else 0))
  pure def judgeValue(v: Ev): V =
    if (v.out == -2) reject(C_HANG)
    else if (mustPanic(v) or (v.out == -1 and mayPanic(v))) PASS
    else if (v.out == -1) reject(C_PANIC)
    else if (v.fn == ERF) judgeErf(v.a, v.r)
    else if (v.fn == ERFC) judgeErfc(v.a, v.r)
    else if (v.fn == ERFCX) judgeErfcx(v.a, v.r)
    else if (v.fn == INVERF) judgeInverf(v.a, v.r)
    else if (v.fn == INVERFC) judgeInverfc(v.a, v.r)
    else if (v.fn == DAWSON) judgeDawson(v.a, v.r)
    else if (v.fn == FADDEEVA) judgeFaddeeva(v.a, v.b, v.r, v.s)
    else reject(C_REF)
  pure def judgeLaw(l: int, g: List[Ev]): V =
    if (l == L_RANGE or l == L_ODD or l == L_PARITY or l == L_PAIR or l == L_MONO or l == L_SUM1) (
      if (l == L_PAIR or allReturned(g)) judgeSharedLaw(l, g) else reject(C_PANIC))
    else if (not(allReturned(g))) reject(C_PANIC)
    else if (l == L_FAD_CONJ) lawConj(g)
    else if (l == L_FAD_IMAG) lawFadImag(g)
    else if (l == L_ERFCX) lawErfcx(g)
    else if (not(allFinite(g))) reject(C_NAN)
    else if (l == L_ERFC_REFL) lawErfcRefl(g)
    else if (l == L_FAD_REFL) lawFadRefl(g)
    else if (l == L_FAD_REAL) lawFadReal(g)
    else if (l == L_INVERF) lawInverf(g)
    else if (l == L_INVERFC) lawInverfc(g)
    else reject(C_REF)
}
