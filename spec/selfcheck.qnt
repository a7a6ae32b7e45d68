// The reference definitions checked against the laws they must obey, at random arguments, in the
// specification alone: no Rust code is involved.  A wrong reference would make conformance checks
// compare the code with nonsense; each law below ties two independently computed references together.
//   quint run selfcheck.qnt --invariant=allHold
module selfcheck {
  import num.* from "./num"
  import gammas.* from "./gammas"
  import errs.* from "./errs"
  import bessels.* from "./bessels"

  type Draw = { law: int, u: int, v: int, w: int }
  var d: Draw
  var holds: bool

  pure val U: int = 2^53
  // uniform in lo..hi
  pure def lin(u: int, lo: int, hi: int): BF = bfAdd(bfInt(lo), { m: u * (hi - lo) + 1, e: -53 })
  // 2^lo .. 2^hi, uniform in the exponent
  pure def scaled(u: int, lo: int, hi: int): BF = { m: 2^40 + u / 2^13, e: lo - 40 + u % (hi - lo) }
  pure def some(u: int, v: int, lo: int, hi: int, top: int): BF = if (v % 2 == 0) scaled(u, lo, hi) else lin(u, 0, top)

  pure def sub(x: BF, y: BF): BF = bfAdd(x, bfNeg(y))
  // x = y to 2^-bits of the largest of x, y, z
  pure def closeTo(x: BF, y: BF, z: BF, bits: int): bool =
    bfTop(sub(x, y)) <= maxi(maxi(bfTop(x), bfTop(y)), bfTop(z)) - bits
  pure def close(x: BF, y: BF, bits: int): bool = closeTo(x, y, bfInt(0), bits)
  pure def fix(P: int, x: int): BF = { m: x, e: -P }
  pure def wideBF(x: int): BF = fix(1200, x)
  pure def sq2(x: BF): BF = bfMul(x, x)
  pure val ONE: BF = bfInt(1)
  pure val HALF: BF = { m: 1, e: -1 }
  pure def inc(x: BF): BF = bfAdd(x, ONE)
  pure def pi(P: int): BF = fix(P, piFix(P))
  pure def sqrtBF(P: int, x: BF): BF = powBF(P, x, HALF)
  pure def expOf(P: int, x: BF): BF = expBF(P, bfFix(P, x))

  // ---- elementary
  pure def expLn(x: BF): bool = close(expBF(200, lnBF(200, x)), x, 180)
  pure def circle(x: BF): bool =
    val t = sinCos(300, bfFix(300, x))
    close(bfAdd(sq2(fix(300, t._1)), sq2(fix(300, t._2))), ONE, 250)
  pure def lnProduct(x: BF, y: BF): bool =
    abs(lnBF(300, bfMul(x, y)) - lnBF(300, x) - lnBF(300, y)) < 2^40
  // ---- gamma
  pure def gammaStepLaw(x: BF): bool = close(gammaBF(120, inc(x)), bfMul(x, gammaBF(120, x)), 90)
  pure def duplication(x: BF): bool =
    close(bfMul(gammaBF(140, x), gammaBF(140, bfAdd(x, HALF))),
          bfMul(bfMul(powBF(140, bfInt(2), sub(ONE, bfMul(bfInt(2), x))), fix(200, sqrtPi(200))), gammaBF(140, bfMul(bfInt(2), x))), 90)
  pure def gammaOfInteger(n: int): bool = close(gammaBF(140, bfInt(n + 1)), bfInt(factorialInt(n)), 110)
  pure def lnGammaLaw(x: BF): bool = close(expBF(140, lnGammaFix(140, x)), gammaBF(120, x), 90)
  // ---- incomplete gamma
  pure def side(i: Incomplete, lower_: bool): BF = wideBF(if (i.low == lower_) i.t else WONE - i.t)
  pure def gammaIsErf(x: BF): bool =
    val i = gammaP(HALF, sq2(x))
    val r = if (i.low) erfRef(x) else erfcRef(x)
    closeTo(wideBF(i.t), r, fix(160, 1), 62)
  pure def gammaStepP(a: BF, x: BF): bool =
    val p = gammaP(a, x)
    val q = gammaP(inc(a), x)
    val t = bfDiv(160, expBF(160, lnBF(160, x) * bfFix(80, a) / 2^80 - bfFix(160, x)), gammaPosBF(160, inc(a)))
    not(p.ok) or not(q.ok) or closeTo(sub(side(p, p.low), side(q, p.low)), if (p.low) t else bfNeg(t), bfAdd(side(p, p.low), fix(96, 1)), 70)
  pure def gammaExponential(x: BF): bool =
    val p = gammaP(ONE, x)
    val e = expOf(160, bfNeg(x))
    closeTo(wideBF(p.t), if (p.low) sub(ONE, e) else e, fix(160, 1), 80)
  // ---- incomplete beta
  pure def betaMirror(a: BF, b: BF, x: BF): bool =
    val p = betaI(a, b, x)
    val q = betaI(b, a, sub(ONE, x))
    not(p.ok) or not(q.ok) or closeTo(side(p, true), side(q, false), fix(160, 1), 70)
  pure def betaStep(a: BF, b: BF, x: BF): bool =
    // I_x(a,b) - I_x(a+1,b) = x^a (1-x)^b / (a B(a,b))
    val p = betaI(a, b, x)
    val q = betaI(inc(a), b, x)
    val l = lnBF(200, x) * bfFix(80, a) / 2^80 + lnBF(200, sub(ONE, x)) * bfFix(80, b) / 2^80 - lnBeta(200, a, b) - lnBF(200, a)
    val t = expBF(160, l / 2^40)
    not(p.ok) or not(q.ok) or closeTo(sub(side(p, p.low), side(q, p.low)), if (p.low) t else bfNeg(t), bfAdd(side(p, p.low), fix(106, 1)), 60)
  pure def betaPower(a: BF, x: BF): bool =
    val p = betaI(a, ONE, x)
    not(p.ok) or closeTo(side(p, true), powBF(160, x, a), fix(96, 1), 70)
  // ---- error functions
  pure def erfParts(x: BF): bool = closeTo(bfAdd(erfRef(x), erfcRef(x)), ONE, ONE, 150)
  pure def erfcxLaw(x: BF): bool =
    close(bfMul(erfcxRef(x), expBF(260, -bfFix(260, sq2(x)))), erfcRef(x), 90)
  pure def dawsonLaw(x: BF): bool =
    val w = faddeevaRef(x, bfInt(0))
    close(bfMul(bfMul(bfInt(2), dawsonRef(x)), bfInt(1)), bfMul(w.im, fix(200, sqrtPi(200))), 80)
  pure def axisLaw(y: BF): bool = close(faddeevaRef(bfInt(0), y).re, erfcxRef(y), 80)
  // w(z) + w(-z) = 2 exp(-z^2)
  pure def reflection(x: BF, y: BF): bool =
    val a = faddeevaRef(x, y)
    val b = faddeevaRef(bfNeg(x), bfNeg(y))
    val e = expMinusZ2(x, y)
    val big = bfAdd(bfAdd(sq2(b.re), sq2(b.im)), bfAdd(sq2(a.re), sq2(a.im)))
    bfTop(big) > 1000 or
    (closeTo(bfAdd(a.re, b.re), bfMul(bfInt(2), e.re), { m: 1, e: bfTop(big) / 2 }, 70)
     and closeTo(bfAdd(a.im, b.im), bfMul(bfInt(2), e.im), { m: 1, e: bfTop(big) / 2 }, 70))
  // ---- Bessel functions
  pure def wronskianJY(nu: BF, x: BF): bool =
    val j = besselJ(nu, x)
    val y = besselY(nu, x)
    val s = bfMul(j.b, y.a)
    val t = bfMul(j.a, y.b)
    not(j.ok) or not(y.ok) or closeTo(bfMul(sub(s, t), bfMul(pi(200), x)), bfInt(2), bfMul(s, x), 60)
  pure def wronskianIK(nu: BF, x: BF): bool =
    val i = besselI(nu, x)
    val k = besselK(nu, x)
    not(i.ok) or not(k.ok) or close(bfMul(bfAdd(bfMul(i.a, k.b), bfMul(i.b, k.a)), x), ONE, 60)
  pure def recurJ(nu: BF, x: BF): bool =
    val j = besselJ(nu, x)
    val k = besselJ(inc(nu), x)
    val t = bfMul(bfMul(bfInt(2), inc(nu)), k.a)
    not(j.ok) or not(k.ok) or (close(j.b, k.a, 50) or bfTop(k.a) < -20) and closeTo(bfMul(x, bfAdd(j.a, k.b)), t, bfMul(x, j.a), 50)
  pure def recurI(nu: BF, x: BF): bool =
    val j = besselI(nu, x)
    val k = besselI(inc(nu), x)
    not(j.ok) or not(k.ok) or closeTo(bfMul(x, sub(j.a, k.b)), bfMul(bfMul(bfInt(2), inc(nu)), k.a), bfMul(x, j.a), 60)
  pure def recurK(nu: BF, x: BF): bool =
    val j = besselK(nu, x)
    val k = besselK(inc(nu), x)
    closeTo(bfMul(x, sub(k.b, j.a)), bfMul(bfMul(bfInt(2), inc(nu)), k.a), bfMul(x, k.b), 60)
  pure def recurY(nu: BF, x: BF): bool =
    val j = besselY(nu, x)
    val k = besselY(inc(nu), x)
    closeTo(bfMul(x, bfAdd(k.b, j.a)), bfMul(bfMul(bfInt(2), inc(nu)), k.a), bfMul(x, k.b), 50)
  // J, Y, I, K of order 1/2 are elementary
  pure def halfOrder(x: BF): bool =
    val P = 200
    val sc = sinCos(P, bfFix(P, x))
    val f = fix(P, isqrt(bfFix(2 * P, bfDiv(2 * P + 60, bfInt(2), bfMul(pi(P + 60), x)))))
    val ex = expOf(P, x)
    val em = expOf(P, bfNeg(x))
    closeTo(besselJ(HALF, x).a, bfMul(f, fix(P, sc._1)), f, 60)
      and closeTo(besselY(HALF, x).a, bfNeg(bfMul(f, fix(P, sc._2))), f, 60)
      and closeTo(besselI(HALF, x).a, bfMul(f, bfMul(HALF, sub(ex, em))), bfInt(0), 60)
      and closeTo(besselK(HALF, x).a, bfMul(bfMul(f, em), bfMul(HALF, pi(P))), bfInt(0), 60)

  pure val LAWS: int = 27
  pure def check(t: Draw): bool =
    if (t.law == 1) expLn(scaled(t.u, -900, 900))
    else if (t.law == 2) circle(lin(t.u, -3000, 3000))
    else if (t.law == 3) lnProduct(scaled(t.u, -300, 300), some(t.v, t.w, -300, 300, 50))
    else if (t.law == 4) gammaStepLaw(lin(t.u, -170, 170))
    else if (t.law == 5) duplication(some(t.u, t.v, -30, 5, 80))
    else if (t.law == 6) gammaOfInteger(t.u % 170)
    else if (t.law == 7) lnGammaLaw(some(t.u, t.v, -300, 6, 160))
    else if (t.law == 8) gammaIsErf(some(t.u, t.v, -20, 3, 6))
    else if (t.law == 9) gammaStepP(some(t.u, t.w, -9, 8, 300), some(t.v, t.w / 2, -20, 9, 400))
    else if (t.law == 10) gammaExponential(some(t.u, t.v, -20, 6, 90))
    else if (t.law == 11) betaMirror(some(t.u, t.w, -5, 8, 60), some(t.v, t.w / 2, -5, 8, 60), lin(t.w, 0, 1))
    else if (t.law == 12) betaStep(some(t.u, t.w, -5, 8, 60), some(t.v, t.w / 2, -5, 8, 60), lin(t.w, 0, 1))
    else if (t.law == 13) betaPower(some(t.u, t.w, -5, 8, 60), lin(t.v, 0, 1))
    else if (t.law == 14) erfParts(some(t.u, t.v, -200, 3, 20))
    else if (t.law == 15) erfcxLaw(lin(t.u, -20, 20))
    else if (t.law == 16) dawsonLaw(some(t.u, t.v, -40, 12, 30))
    else if (t.law == 17) axisLaw(some(t.u, t.v, -40, 12, 30))
    else if (t.law == 18) reflection(lin(t.u, -12, 12), lin(t.v, -8, 8))
    else if (t.law == 19) wronskianJY(lin(t.u, 0, 90), some(t.v, t.w, -6, 9, 100))
    else if (t.law == 20) wronskianIK(lin(t.u, 0, 60), some(t.v, t.w, -6, 7, 100))
    else if (t.law == 21) recurJ(lin(t.u, 0, 90), some(t.v, t.w, -6, 9, 100))
    else if (t.law == 22) recurI(lin(t.u, 0, 60), some(t.v, t.w, -6, 7, 100))
    else if (t.law == 23) recurK(lin(t.u, 0, 60), some(t.v, t.w, -6, 7, 100))
    else if (t.law == 24) recurY(lin(t.u, 0, 60), some(t.v, t.w, -6, 7, 100))
    else if (t.law == 25) halfOrder(some(t.u, t.v, -6, 7, 100))
    else if (t.law == 26) wronskianJY(bfInt(t.u % 60), some(t.v, t.w, -6, 9, 100))
    else wronskianIK(bfInt(t.u % 60), some(t.v, t.w, -6, 7, 100))

  action draw = {
    nondet law = 1.to(LAWS).oneOf()
    nondet u = 0.to(2^53 - 1).oneOf()
    nondet v = 0.to(2^53 - 1).oneOf()
    nondet w = 0.to(2^53 - 1).oneOf()
    val t = { law: law, u: u, v: v, w: w }
    all { d' = t, holds' = check(t) }
  }
  action init = draw
  action step = draw
  val allHold = holds
}
