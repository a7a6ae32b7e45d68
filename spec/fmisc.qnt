// The Lambert W function and the floating-point utilities.
module fmisc {
  import num.* from "./num"
  import ieee.* from "./ieee"
  import core.* from "./core"
  import lambert.* from "./lambert"

  // ---------------------------------------------------------------- Lambert W
  // -1/e at precision 400 (truncated)
  pure val INV_E: int = shift(expBF(400, -(2^400)).m, expBF(400, -(2^400)).e + WP)
  pure def belowBranch(b: int): int =
    // +1: certainly below -1/e, -1: certainly above, 0: within one unit in the last place
    val d = wide(b) + INV_E
    if (d < -ten(-16)) 1 else if (d > ten(-16)) -1 else 0
  // w is on the right side of -1 and x lies between f(w - d) and f(w + d)
  pure def judgeRealW(m1: bool, digits: int, b: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else if (isInf(b)) (if (isNeg(b) or m1) need(isNaN(r), C_SPECIAL) else PASS)
    else if (belowBranch(b) == 1) need(isNaN(r), C_SPECIAL)
    else if (m1 and not(isNeg(b)) and not(isZero(b))) need(isNaN(r), C_SPECIAL)
    else if (belowBranch(b) == 0) {
      // at the branch point
      if (isNaN(r)) need(wide(b) < -INV_E, C_SPECIAL) else nearBits(r, -WONE, ten(-7) * 4)
    }
    else if (isZero(b)) (if (m1) PASS else if (isNaN(r) or isInf(r)) reject(C_SPECIAL) else nearBits(r, 0, ten(-15)))
    else if (m1 and wide(b) > -ten(-300)) PASS
    else if (not(m1) and wide(b) > ten(300)) PASS
    else if (isNaN(r)) reject(C_NAN)
    else if (isInf(r)) reject(C_VALUE)
    else if (abs(wide(r)) > 800 * WONE) reject(C_VALUE)
    else {
      val w = wide(r)
      val slack = if (wide(b) < -(INV_E - ten(-5))) (if (digits < 10) ten(-6) else ten(-7)) else if (m1) 0 else ten(-15)
      val d = abs(w) / 10^digits + slack
      val lo = if (m1) w - d else maxi(-WONE, w - d)
      val hi = if (m1) mini(-WONE, w + d) else w + d
      if (m1 and w - d > -WONE) reject(C_VALUE)
      else if (not(m1) and w + d < -WONE) reject(C_VALUE)
      else encloseV(wide(b), toWide(wexpw(wideBF(lo))), toWide(wexpw(wideBF(hi))))
    }
  pure def judgeComplexW(k: int, zr: int, zi: int, r: int, s: int): V =
    if (abs(k) > 3 or not(finite2(zr, zi))) PASS
    else {
      val x = wide(zr)
      val y = wide(zi)
      val m = isqrt(mod2(x, y))
      if (m < ten(-5) or m > ten(5) or isqrt(mod2(x + INV_E, y)) < ten(-2)) PASS
      else if (isNaN(r) or isNaN(s)) reject(C_NAN)
      else if (isInf(r) or isInf(s)) reject(C_VALUE)
      else if (maxi(abs(wide(r)), abs(wide(s))) > 800 * WONE) reject(C_VALUE)
      else {
        val wr = bfFix(QP, val64(r))
        val wi = bfFix(QP, val64(s))
        val g = cwexpw(wr, wi)
        val wm = isqrt(mod2(wide(r), wide(s)))
        val v = near(isqrt(mod2(toWide(g._1) - x, toWide(g._2) - y)), 0, m / 10^11 * ((WONE + wm) / 2^1136) / 2^64)
        if (v.c != 0) v
        else if (y == 0) PASS                 // on the cut only the equation is stated
        // the lambert_w crate's iteration is known to stray to other branches here
        else if (k == 1 and y < 0 and m < WONE) PASS
        else if (k == 0 and m > WONE / 2 and m < 2 * WONE) PASS
        else {
          val br = branchFix(wr, wi, bfFix(QP, val64(zr)), bfFix(QP, val64(zi)))
          if (abs(br - k * 2^40) < 2^20) v else reject(C_SPECIAL)
        }
      }
    }

  // ---------------------------------------------------------------- utilities
  pure def judgeFrexp(b: int, r: int, s: int): V =
    if (isNaN(b) or isInf(b)) PASS
    else if (isZero(b)) need(isZero(r) and s == 0, C_SPECIAL)
    else {
      val e = signed64(s)
      if (isNaN(r) or isInf(r) or isZero(r)) reject(C_SPECIAL)
      else {
        val m = val64(r)
        need(bfTop(m) == 0 and abs(e) < 3000 and bfAdd({ m: m.m, e: m.e + e }, bfNeg(val64(b))).m == 0, C_VALUE)
      }
    }
  // e as a signed 64-bit pattern
  pure def judgeLdexp(b: int, ee: int, r: int): V =
    if (isNaN(b)) need(isNaN(r), C_SPECIAL)
    else if (isInf(b) or isZero(b)) need(r == b, C_SPECIAL)
    else {
      val e = maxi(-5000, mini(5000, signed64(ee)))
      val x = val64(b)
      val m = roundBits({ m: abs(x.m), e: x.e + e })
      need(r == m + (if (isNeg(b)) SIGN else 0), C_VALUE)
    }
  pure def judgeSign(a: int, b: int, r: int): V =
    if (isNaN(a)) need(isNaN(r), C_SPECIAL)
    else need(r == magBits(a) + (if (isNeg(b)) SIGN else 0), C_SPECIAL)

  pure def judgeValue(v: Ev): V =
    if (v.out == -2) reject(C_HANG)
    else if (mustPanic(v) or (v.out == -1 and mayPanic(v))) PASS
    else if (v.out == -1) reject(C_PANIC)
    else if (v.fn == W0) judgeRealW(false, 12, v.a, v.r)
    else if (v.fn == WM1) judgeRealW(true, 12, v.a, v.r)
    else if (v.fn == SPW0) judgeRealW(false, 6, v.a, v.r)
    else if (v.fn == SPWM1) judgeRealW(true, 6, v.a, v.r)
    else if (v.fn == LAMBERTW) judgeComplexW(signed64(v.a), v.b, v.c, v.r, v.s)
    else if (v.fn == FREXP) judgeFrexp(v.a, v.r, v.s)
    else if (v.fn == LDEXP) judgeLdexp(v.a, v.b, v.r)
    else if (v.fn == SIGN_) judgeSign(v.a, v.b, v.r)
    else reject(C_REF)
  pure def judgeLaw(l: int, g: List[Ev]): V =
    if (l == L_RANGE or l == L_ODD or l == L_PARITY or l == L_PAIR or l == L_MONO or l == L_SUM1) (
      if (l == L_PAIR or allReturned(g)) judgeSharedLaw(l, g) else reject(C_PANIC))
    else if (not(allReturned(g))) reject(C_PANIC)
    else if (not(allFinite(g))) reject(C_NAN)
    else reject(C_REF)
}
