// The Bessel functions.
module fbessel {
  import num.* from "./num"
  import ieee.* from "./ieee"
  import core.* from "./core"
  import gammas.* from "./gammas"
  import bessels.* from "./bessels"

  // ---------------------------------------------------------------- Bessel functions
  pure def invSqrtWide(x: BF): int =
    // min(1, 1/sqrt|x|)
    if (bfTop(x) <= 0) WONE
    else mini(WONE, isqrt(bfFix(2 * WP, bfDiv(200, bfInt(1), absBF(x)))))
  pure def parity(n: int, x: BF, w: int): int = if (x.m < 0 and n % 2 == 1) -w else w
  // (5e-13 + 2e-15 |x|) * env
  pure def tolJ(env: int, x: BF): int = env / 10^12 / 2 + env * bfFix(20, absBF(x)) / 2^20 / 10^15 * 2
  pure def judgeJn(n: int, b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else if (n > 20000 or isInf(b) or abs(wide(b)) > ten(9)) PASS
    else if (isZero(b)) (if (n == 0) nearBits(r, WONE, ten(-14)) else need(isZero(r), C_SPECIAL))
    else {
      val x = val64(b)
      val ax = absBF(x)
      val j = besselJ(bfInt(n), ax)
      val w = toWide(j.a)
      val env = maxi(abs(w), if (ge(ax, n)) invSqrtWide(ax) else 0)
      if (not(j.ok)) reject(C_REF) else nearBits(r, parity(n, x, w), maxi(tolJ(env, x), ten(-307)))
    }
  pure def judgeYn(n: int, b: int, r: int): V =
    if (n > 20000 or not(posFinite(b)) or wide(b) > ten(9) or wide(b) < ten(-300)) PASS
    else {
      val x = val64(b)
      val w = toWide(besselY(bfInt(n), x).a)
      if (w < -ten(300)) need(not(isNaN(r)) and isNeg(r) and (isInf(r) or wide(r) < -ten(299)), C_VALUE)
      else nearBits(r, w, tolJ(maxi(abs(w), abs(toWide(besselJ(bfInt(n), x).a))), x))
    }
  pure def judgeIn(n: int, b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else if (n > 20000 or isInf(b) or abs(wide(b)) > 709 * WONE) PASS
    else if (isZero(b)) (if (n == 0) nearBits(r, WONE, ten(-12)) else need(isZero(r), C_SPECIAL))
    else {
      val x = val64(b)
      val i = besselI(bfInt(n), absBF(x))
      val w = toWide(i.a)
      if (not(i.ok)) reject(C_REF) else nearBits(r, parity(n, x, w), maxi(w / 10^12, ten(-307)))
    }
  pure def judgeKn(n: int, b: int, r: int): V =
    if (n > 20000 or not(posFinite(b)) or wide(b) > 709 * WONE or wide(b) < ten(-300)) PASS
    else {
      val w = toWide(besselK(bfInt(n), val64(b)).a)
      if (w > ten(300)) need(not(isNaN(r)) and not(isNeg(r)) and (isInf(r) or wide(r) > ten(299)), C_VALUE)
      else nearBits(r, w, w / 10^12)
    }
  // Reference quadruple (C, D, C', D') as wide numbers
  type Quad = { f: int, g: int, fp: int, gp: int, ok: bool }
  // C' = (nu/x) C - C_{+1}  (I' = (nu/x) I + I_{+1})
  pure def deriv(nu: BF, x: BF, c: BF, c1: BF, s: int): int =
    toWide(bfTrim(400, bfAdd(bfDiv(500, bfMul(nu, bfTrim(300, c)), x), { m: s * c1.m, e: c1.e })))
  pure def refJY(nu: BF, x: BF): Quad =
    val j = besselJ(nu, x)
    val y = besselY(nu, x)
    { f: toWide(j.a), g: toWide(y.a), fp: deriv(nu, x, j.a, j.b, -1), gp: deriv(nu, x, y.a, y.b, -1), ok: j.ok and y.ok }
  pure def refIK(nu: BF, x: BF): Quad =
    val i = besselI(nu, x)
    val k = besselK(nu, x)
    { f: toWide(i.a), g: toWide(k.a), fp: deriv(nu, x, i.a, i.b, 1), gp: deriv(nu, x, k.a, k.b, -1), ok: i.ok and k.ok }
  pure def sqrt2PiX(x: BF): int = fromFix(HP, sqrtTwoOverPiX(x))
  // (where Y or K itself is beyond 1e280, so is its derivative, and the reference saturates)
  // a component that may overflow: infinite, or as large, with the right sign
  pure def beyond(r: int, w: int, tol: int): V =
    if (abs(w) > ten(280)) need(not(isNaN(r)) and isNeg(r) == (w < 0) and (isInf(r) or abs(wide(r)) > ten(279)), C_VALUE)
    else nearBits(r, w, tol)
  // a component that may underflow, where another overflows
  pure def tiny(r: int, w: int): V = nearBits(r, w, abs(w) / 10^10 * 2 + ten(-280))
  // four is false when only the first two components were returned
  pure def judgeJY(nu: int, x: int, four: bool, r: int, s: int, t: int, u: int): V =
    if (not(domNu(nu, x, 9500 * WONE)) or wide(x) < ten(-250)) PASS
    else {
      val nv = val64(nu)
      val xv = val64(x)
      val q = refJY(nv, xv)
      if (not(q.ok)) reject(C_REF)
      else if (maxi(abs(q.g), abs(q.gp)) > ten(280)) {
        val j = worse(beyond(s, q.g, abs(q.g) / 10^10), tiny(r, q.f))
        if (four) worse(j, worse(beyond(u, if (abs(q.g) > ten(280)) ten(300) else q.gp, abs(q.gp) / 10^10), if (abs(q.f) < ten(-280)) need(fin(t), C_VALUE) else nearBits(t, q.fp, abs(q.fp) / 10^10))) else j
      }
      else {
        val e = sqrt2PiX(xv)
        val osc = if (bfAdd(xv, bfNeg(nv)).m >= 0) e else 0
        val k = wide(x) / 10^12 + 20 * ten(-12)           // 2e-11 + 1e-12 x
        val jf = nearBits(r, q.f, maxi(abs(q.f), osc) * (k / 2^1100) / 2^100)
        val yf = nearBits(s, q.g, maxi(abs(q.g), e) * (k / 2^1100) / 2^100)
        val jp = nearBits(t, q.fp, maxi(abs(q.fp), osc) * (k / 2^1100) / 2^100)
        val yp = nearBits(u, q.gp, maxi(abs(q.gp), e) * (k / 2^1100) / 2^100)
        if (four) worse(worse(jf, yf), worse(jp, yp)) else worse(jf, yf)
      }
    }
  pure def judgeIK(nu: int, x: int, four: bool, r: int, s: int, t: int, u: int): V =
    if (not(domNu(nu, x, 700 * WONE)) or wide(x) < ten(-250)) PASS
    else {
      val q = refIK(val64(nu), val64(x))
      if (not(q.ok)) reject(C_REF)
      else if (maxi(q.f, q.fp) > ten(280) or mini(q.g, -q.gp) < ten(-280)) need(not(isNaN(r) or isNaN(s) or isNaN(t) or isNaN(u)), C_NAN)
      else if (maxi(q.g, -q.gp) > ten(280) or mini(q.f, q.fp) < ten(-280)) {
        val i = worse(beyond(s, q.g, q.g / 10^10 * 2), tiny(r, q.f))
        if (four) worse(i, worse(beyond(u, if (q.g > ten(280)) -ten(300) else q.gp, -q.gp / 10^10 * 2), if (q.f < ten(-280)) need(fin(t), C_VALUE) else tiny(t, q.fp))) else i
      }
      else {
        val a = worse(nearBits(r, q.f, q.f / 10^10 * 2), nearBits(s, q.g, q.g / 10^10 * 2))
        if (four) worse(a, worse(nearBits(t, q.fp, q.fp / 10^10 * 2), nearBits(u, q.gp, -q.gp / 10^10 * 2))) else a
      }
    }

  pure val BJ: int = 0
  pure val BY: int = 1
  pure val BI: int = 2
  pure val BK: int = 3
  pure def isInt(e: Ev): bool = e.fn == JN or e.fn == YN or e.fn == IN or e.fn == KN
  pure def order(e: Ev): BF = if (isInt(e)) bfInt(e.a) else val64(e.a)
  pure def sumOf3(a: int, b: int, c: int, floor: int): V =
    lawNear(a + b + c, 0, maxi(maxi(abs(a), abs(b)), abs(c)) / 10^10 + floor)
  pure def scaleBy(nu: BF, x: BF, c: int): int =
    toWide(bfDiv(2600, bfMul(nu, { m: c, e: -WP }), x))
  pure def rec3(kind: int, nu: BF, x: BF, lo: int, mid: int, hi: int): V =
    val m = 2 * scaleBy(nu, x, mid)
    if (kind == BJ or kind == BY) sumOf3(lo, hi, -m, ten(-300))
    else if (kind == BI) sumOf3(lo, -hi, -m, ten(-300))
    else sumOf3(hi, -lo, -m, ten(-300))
  pure def kindOf(fn: int): int = if (fn == JN) BJ else if (fn == YN) BY else if (fn == IN) BI else BK
  pure def lawRec3(g: List[Ev]): V =
    val x = val64(g[1].b)
    if (isInt(g[0])) {
      if (not(usable(g[0].r) and usable(g[1].r) and usable(g[2].r))) PASS
      else rec3(kindOf(g[0].fn), order(g[1]), x, R(g[0]), R(g[1]), R(g[2]))
    } else {
      val jy = g[0].fn == BESSELJY or g[0].fn == JNU_YNU
      // orders must differ by exactly one
      val o = order(g[1])
      if (bfAdd(o, bfNeg(order(g[0]))) .m * 1 <= 0 or bfAdd(bfAdd(order(g[0]), bfInt(1)), bfNeg(o)).m != 0
          or bfAdd(bfAdd(o, bfInt(1)), bfNeg(order(g[2]))).m != 0) PASS
      else {
        val a = if (usable(g[0].r) and usable(g[1].r) and usable(g[2].r))
            rec3(if (jy) BJ else BI, o, x, R(g[0]), R(g[1]), R(g[2])) else PASS
        val b = if (usable(g[0].s) and usable(g[1].s) and usable(g[2].s))
            rec3(if (jy) BY else BK, o, x, wide(g[0].s), wide(g[1].s), wide(g[2].s)) else PASS
        worse(a, b)
      }
    }
  pure def wronskian(jy: bool, x: BF, c0: int, d0: int, c1: int, d1: int): V =
    val inv = toWide(bfDiv(300, bfInt(1), x))
    if (jy) {
      val w = 2 * (inv * 2^300 / piFix(300))
      sumOf3(wmul(c1, d0), -wmul(c0, d1), -w, ten(-300))
    } else sumOf3(wmul(c0, d1), wmul(c1, d0), -inv, ten(-300))
  pure def lawWronskian(g: List[Ev]): V =
    if (isInt(g[0])) {
      if (usable(g[0].r) and usable(g[1].r) and usable(g[2].r) and usable(g[3].r)
          and maxi(abs(R(g[1])), abs(R(g[3]))) < ten(250) and mini(abs(R(g[1])), abs(R(g[3]))) > ten(-250))
        wronskian(g[0].fn == JN, val64(g[0].b), R(g[0]), R(g[1]), R(g[2]), R(g[3]))
      else PASS
    } else if (g.length() == 1) {
      // one quadruple: J Y' - Y J' = 2/(pi x), I K' - K I' = -1/x
      if (bfAdd(order(g[0]), bfInt(-401)).m < 0 and wide(g[0].b) <= 700 * WONE
          and usable(g[0].r) and usable(g[0].s) and usable(g[0].t) and usable(g[0].u)
          and maxi(abs(wide(g[0].s)), abs(wide(g[0].u))) < ten(250)
          and mini(abs(wide(g[0].s)), abs(wide(g[0].u))) > ten(-250)) {
        val jy = g[0].fn == BESSELJY
        val x = val64(g[0].b)
        val inv = toWide(bfDiv(300, bfInt(1), x))
        val p = wmul(R(g[0]), wide(g[0].u))
        val q = wmul(wide(g[0].s), wide(g[0].t))
        if (jy) sumOf3(p, -q, -(2 * (inv * 2^300 / piFix(300))), ten(-300)) else sumOf3(p, -q, inv, ten(-300))
      } else PASS
    } else {
      if (usable(g[0].r) and usable(g[0].s) and usable(g[1].r) and usable(g[1].s)
          and maxi(abs(wide(g[0].s)), abs(wide(g[1].s))) < ten(250)
          and mini(abs(wide(g[0].s)), abs(wide(g[1].s))) > ten(-250)
          and bfAdd(bfAdd(order(g[0]), bfInt(1)), bfNeg(order(g[1]))).m == 0)
        wronskian(g[0].fn == BESSELJY or g[0].fn == JNU_YNU, val64(g[0].b), R(g[0]), wide(g[0].s), R(g[1]), wide(g[1].s))
      else PASS
    }
  pure def lawCross(g: List[Ev]): V =
    val x = val64(g[0].b)
    val env = if (g[0].fn == JN) sqrt2PiX(x) else 0
    val envJ = if (ge(x, g[0].a)) env else 0
    val a = if (usable(g[0].r) and usable(g[2].r))
        lawNear(R(g[0]), R(g[2]), maxi(abs(R(g[0])), envJ) / 10^10 + ten(-300)) else PASS
    val b = if (usable(g[1].r) and usable(g[2].s))
        lawNear(R(g[1]), wide(g[2].s), maxi(abs(R(g[1])), env) / 10^10 + ten(-300)) else PASS
    worse(a, b)
  pure def lawDeriv(g: List[Ev]): V =
    val x = val64(g[1].b)
    val nu = order(g[1])
    if (bfAdd(bfAdd(order(g[0]), bfInt(1)), bfNeg(nu)).m != 0) PASS
    else {
      val ik = g[0].fn == BESSELIK
      val a = if (usable(g[0].r) and usable(g[1].r) and usable(g[1].t))
          sumOf3(wide(g[1].t), -R(g[0]), scaleBy(nu, x, R(g[1])), ten(-300)) else PASS
      val b = if (usable(g[0].s) and usable(g[1].s) and usable(g[1].u))
          sumOf3(wide(g[1].u), if (ik) wide(g[0].s) else -wide(g[0].s), scaleBy(nu, x, wide(g[1].s)), ten(-300)) else PASS
      worse(a, b)
    }

  pure def lawHalf(e: Ev): V =
    val x = val64(e.b)
    val c = sqrt2PiX(x)
    if (e.fn == BESSELJY) {
      val sc = sinCos(200, bfFix(200, x))
      val t = c / 10^10 * (1 + bfFix(0, x) / 100)
      worse(lawNear(R(e), c * sc._1 / 2^200, t), lawNear(wide(e.s), -c * sc._2 / 2^200, t))
    } else {
      val ep = toWide(bfTrim(300, expBF(200, bfFix(200, x))))
      val em = toWide(bfTrim(300, expBF(200, -bfFix(200, x))))
      val i = wmul(c, (ep - em) / 2)
      val k = wmul(wmul(c, em), fromFix(300, piFix(300)) / 2)
      worse(lawNear(R(e), i, i / 10^9), lawNear(wide(e.s), k, k / 10^9))
    }
  pure def judgeValue(v: Ev): V =
    if (v.out == -2) reject(C_HANG)
    else if (mustPanic(v) or (v.out == -1 and mayPanic(v))) PASS
    else if (v.out == -1) reject(C_PANIC)
    else if (v.fn == JN) judgeJn(v.a, v.b, v.r)
    else if (v.fn == YN) judgeYn(v.a, v.b, v.r)
    else if (v.fn == IN) judgeIn(v.a, v.b, v.r)
    else if (v.fn == KN) judgeKn(v.a, v.b, v.r)
    else if (v.fn == BESSELJY) judgeJY(v.a, v.b, true, v.r, v.s, v.t, v.u)
    else if (v.fn == BESSELIK) judgeIK(v.a, v.b, true, v.r, v.s, v.t, v.u)
    else if (v.fn == JNU_YNU) judgeJY(v.a, v.b, false, v.r, v.s, 0, 0)
    else if (v.fn == INU_KNU) judgeIK(v.a, v.b, false, v.r, v.s, 0, 0)
    else reject(C_REF)
  pure def judgeLaw(l: int, g: List[Ev]): V =
    if (l == L_RANGE or l == L_ODD or l == L_PARITY or l == L_PAIR or l == L_MONO or l == L_SUM1) (
      if (l == L_PAIR or allReturned(g)) judgeSharedLaw(l, g) else reject(C_PANIC))
    else if (not(allReturned(g))) reject(C_PANIC)
    else if (l == L_REC3) lawRec3(g)
    else if (l == L_WRONSKIAN) lawWronskian(g)
    else if (l == L_CROSS) lawCross(g)
    else if (l == L_DERIV) lawDeriv(g)
    else if (not(allFinite(g))) reject(C_NAN)
    else if (l == L_HALF) lawHalf(g[0])
    else reject(C_REF)
}
