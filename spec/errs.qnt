// Reference definitions of the error functions, the Dawson integral and the Faddeeva function.
module errs {
  import num.* from "./num"

  pure val EP: int = 208
  pure val ES: int = 2^208
  pure val TWO_SQRTPI: BF = bfDiv(EP + 8, bfInt(2), { m: sqrtPi(EP + 16), e: -(EP + 16) })

  // |x| >= 7 ?
  pure def far(x: BF): bool = bfTop(x) > 12 or abs(bfFix(64, x)) >= 7 * 2^64
  // x^2 at EP, for |x| < 2^12 (0 below 2^-104)
  pure def sq(x: BF): int = val v = bfFix(EP + 20, x) v * v / (ES * 2^40)
  pure def nTerms(x2: int): int = 60 + 5 * (x2 / ES + 1)

  // sum (2 x^2)^n / (2n+1)!!   |x| < 7 ; all terms positive
  pure def erfSum(x2: int): int =
    range(1, nTerms(x2)).foldl((ES, ES), (t, k) =>
      val u = t._1 * 2 * x2 / ES / (2 * k + 1)
      (u, t._2 + u))._2
  // sum_{n} (s)^n (2n-1)!! / (2 x^2)^n, |x| >= 7: divergent, cut before its smallest term
  pure def asym(s: int, x: BF): int =
    val t = bfFix(EP, bfDiv(EP + 8, bfInt(1), bfMul(bfInt(2), bfMul(x, x))))
    range(1, 49).foldl((ES, ES), (a, n) =>
      val u = s * a._1 * (2 * n - 1) * t / ES
      (u, a._2 + u))._2

  // erf(x) for |x| < 7, relative precision kept for tiny x
  pure def erfNear(x: BF): BF =
    val x2 = sq(x)
    bfTrim(EP + 8, bfMul(bfMul(TWO_SQRTPI, x),
      bfMul(expBF(EP, -x2), { m: erfSum(x2), e: -EP })))
  // erfcx(x) for x >= 7
  pure def erfcxFar(x: BF): BF =
    bfDiv(EP, { m: asym(-1, x), e: -EP }, bfMul(x, { m: sqrtPi(EP), e: -EP }))
  // erfc(x), x >= 0
  pure def erfcPos(x: BF): BF =
    if (not(far(x))) { m: ES - bfFix(EP, erfNear(x)), e: -EP }
    else if (bfTop(x) > 6) bfInt(0)                      // x >= 64
    else bfTrim(EP, bfMul(erfcxFar(x), expBF(EP, -sq(x))))
  pure def erfcRef(x: BF): BF =
    if (x.m >= 0) erfcPos(x)
    else bfAdd(bfInt(2), bfNeg(erfcPos(bfNeg(x))))
  pure def erfRef(x: BF): BF =
    if (not(far(x))) erfNear(x)
    else if (x.m > 0) bfAdd(bfInt(1), bfNeg(erfcPos(x)))
    else bfAdd(erfcPos(bfNeg(x)), bfInt(-1))
  pure def erfcxPos(x: BF): BF =
    if (far(x)) erfcxFar(x)
    else bfTrim(EP, bfMul(erfcPos(x), expBF(EP, sq(x))))
  // x > -64
  pure def erfcxRef(x: BF): BF =
    if (x.m >= 0) erfcxPos(x)
    else bfAdd(bfMul(bfInt(2), expBF(EP, sq(x))), bfNeg(erfcxPos(bfNeg(x))))

  // Dawson integral
  pure def dawsonRef(x: BF): BF =
    if (far(x)) bfDiv(EP, { m: asym(1, x), e: -EP }, bfMul(bfInt(2), x))
    else {
      val x2 = sq(x)
      val s = range(1, nTerms(x2)).foldl((ES, ES), (t, k) =>
        val u = t._1 * x2 / ES / k
        (u, t._2 + u / (2 * k + 1)))._2
      bfTrim(EP, bfMul(x, bfMul(expBF(EP, -x2), { m: s, e: -EP })))
    }

  // ---- Faddeeva function w(x + iy) ----
  type CBF = { re: BF, im: BF }
  // exp(-z^2)
  pure def expMinusZ2(x: BF, y: BF): CBF =
    val d = bfAdd(bfMul(y, y), bfNeg(bfMul(x, x)))
    val p = bfMul(bfInt(2), bfMul(x, y))
    if (bfTop(d) > 14 and d.m < 0) { re: bfInt(0), im: bfInt(0) }
    else {
      val sc = sinCos(EP, bfFix(EP, p))
      val g = expBF(EP, bfFix(EP, d))
      { re: bfMul(g, { m: sc._2, e: -EP }), im: bfMul(g, { m: -sc._1, e: -EP }) }
    }
  pure def wNear(x: BF, y: BF): CBF =
    val xf = bfFix(EP, x)
    val yf = bfFix(EP, y)
    val a = -2 * (xf * xf - yf * yf) / ES
    val b = -4 * xf * yf / ES
    val n = nTerms((xf * xf + yf * yf) / ES)
    val s = range(1, n).foldl((ES, 0, ES, 0), (t, k) =>
      val d = ES * (2 * k + 1)
      val u = (t._1 * a - t._2 * b) / d
      val v = (t._1 * b + t._2 * a) / d
      (u, v, t._3 + u, t._4 + v))
    val c = bfFix(EP, TWO_SQRTPI)
    val e = expMinusZ2(x, y)
    { re: bfAdd(e.re, { m: (-yf * s._3 - xf * s._4) / ES * c, e: -2 * EP }),
      im: bfAdd(e.im, { m: (xf * s._3 - yf * s._4) / ES * c, e: -2 * EP }) }
  // y >= 0, |z| >= 7
  pure def wFar(x: BF, y: BF): CBF =
    val r2 = bfAdd(bfMul(x, x), bfMul(y, y))
    // 1/z = (x - iy)/r2, scaled by 2^k so that it is of order one
    val k = maxi(bfTop(x), bfTop(y))
    val ur = bfFix(EP, bfMul(bfDiv(EP + 8, x, r2), { m: 1, e: k }))
    val ui = -bfFix(EP, bfMul(bfDiv(EP + 8, y, r2), { m: 1, e: k }))
    // 1/(2 z^2)
    val a = shift(ur * ur - ui * ui, -EP - 2 * k - 1)
    val b = shift(2 * ur * ui, -EP - 2 * k - 1)
    val s = range(1, 49).foldl((ES, 0, ES, 0), (t, n) =>
      val c = 2 * n - 1
      val u = (t._1 * a - t._2 * b) * c / ES
      val v = (t._1 * b + t._2 * a) * c / ES
      (u, v, t._3 + u, t._4 + v))
    // i/(sqrt(pi) z) * s
    val pr = (ur * s._3 - ui * s._4) / ES
    val pi_ = (ur * s._4 + ui * s._3) / ES
    val d = { m: sqrtPi(EP), e: -EP }
    { re: bfDiv(EP, { m: -pi_, e: -EP - k }, d), im: bfDiv(EP, { m: pr, e: -EP - k }, d) }
  pure def wUpper(x: BF, y: BF): CBF =
    val big = maxi(bfTop(x), bfTop(y))
    if (big > 4) wFar(x, y)
    else {
      val xf = bfFix(64, x)
      val yf = bfFix(64, y)
      if (xf * xf + yf * yf >= 49 * 2^128) wFar(x, y) else wNear(x, y)
    }
  pure def faddeevaRef(x: BF, y: BF): CBF =
    if (y.m >= 0) wUpper(x, y)
    else {
      val u = wUpper(bfNeg(x), bfNeg(y))
      val e = expMinusZ2(x, y)
      { re: bfAdd(bfMul(bfInt(2), e.re), bfNeg(u.re)), im: bfAdd(bfMul(bfInt(2), e.im), bfNeg(u.im)) }
    }
}
