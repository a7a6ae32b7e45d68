// The vocabulary of the conformance contract: recorded calls, verdicts, tolerances, domains,
// and the contract on panics and NaN that all functions share.
module core {
  import num.* from "./num"
  import ieee.* from "./ieee"

  // c = 0: admissible.  Otherwise the kind of violation.  e: used share of the tolerance, permille.
  type V = { c: int, e: int }
  pure val C_VALUE: int = 1      // outside the tolerance
  pure val C_SPECIAL: int = 2    // wrong special value (NaN, infinity, exact value)
  pure val C_PANIC: int = 3      // panicked, or failed to panic
  pure val C_NAN: int = 4        // NaN inside the domain
  pure val C_LAW: int = 5        // relation between several calls broken
  pure val C_IMPURE: int = 6     // same call, different outcome
  pure val C_HANG: int = 7       // did not return
  pure val C_REF: int = 90       // the reference did not converge: an error of the specification

  // One recorded call: function, mode, law, outcome (-2 hang, -1 panic, else number of results)
  type Ev = { fn: int, mode: int, law: int, out: int, a: int, b: int, c: int, d: int,
              r: int, s: int, t: int, u: int }

  pure val GAMMA: int = 1
  pure val LN_GAMMA: int = 2
  pure val FACTORIAL: int = 3
  pure val GAMMP: int = 4
  pure val GAMMQ: int = 5
  pure val INVGAMMP: int = 6
  pure val BETA: int = 7
  pure val BETAI: int = 8
  pure val INVBETAI: int = 9
  pure val ERF: int = 10
  pure val ERFC: int = 11
  pure val ERFCX: int = 12
  pure val INVERF: int = 13
  pure val INVERFC: int = 14
  pure val DAWSON: int = 15
  pure val FADDEEVA: int = 16
  pure val JN: int = 17
  pure val YN: int = 18
  pure val IN: int = 19
  pure val KN: int = 20
  pure val BESSELJY: int = 21
  pure val BESSELIK: int = 22
  pure val JNU_YNU: int = 23
  pure val INU_KNU: int = 24
  pure val W0: int = 25
  pure val WM1: int = 26
  pure val SPW0: int = 27
  pure val SPWM1: int = 28
  pure val LAMBERTW: int = 29
  pure val FREXP: int = 30
  pure val LDEXP: int = 31
  pure val SIGN_: int = 32

  pure val PASS: V = { c: 0, e: 0 }
  pure def reject(c: int): V = { c: c, e: 1000000 }
  pure def need(cond: bool, c: int): V = if (cond) PASS else reject(c)
  pure def worse(x: V, y: V): V =
    if (x.c != 0 and y.c == 0) x else if (y.c != 0 and x.c == 0) y else if (x.e >= y.e) x else y
  // 10^k as a wide number
  pure def ten(k: int): int = if (k >= 0) WONE * 10^k else WONE / 10^(-k)
  // |got - want| <= tol on wide numbers
  pure def near(got: int, want: int, tol: int): V =
    val e = mini(abs(got - want) * 1000 / maxi(tol, 1), 999999)
    if (abs(got - want) <= tol) { c: 0, e: mini(e, 1000) } else { c: C_VALUE, e: maxi(e, 1001) }
  // result bits b against the wide number want
  pure def nearBits(b: int, want: int, tol: int): V =
    if (isNaN(b)) reject(C_NAN)
    else if (isInf(b)) reject(C_VALUE)
    else near(wide(b), want, tol)
  // wide numbers from other scales
  pure def fromIP(p: int): int = shift(p, WP - 100)
  pure def fromFix(P: int, v: int): int = shift(v, WP - P)

  pure val PINF: int = INFBITS
  pure val NINF: int = INFBITS + SIGN
  pure val ONE: int = 1023 * 2^52
  pure def dbl(n: int): int = roundBits(bfInt(n))
  pure val HUNDRED: int = dbl(100)
  pure val MAXW: int = wide(INFBITS - 1)

  pure def signed64(v: int): int = if (v >= 2^63) v - 2^64 else v
  pure def posFinite(b: int): bool = not(isNaN(b)) and not(isInf(b)) and not(isNeg(b)) and not(isZero(b))
  pure def inRange(b: int, lo: int, hi: int): bool =
    not(isNaN(b)) and not(isInf(b)) and wide(b) >= lo and wide(b) <= hi
  pure def domGammP(a: int, x: int): bool =
    not(isNaN(a)) and not(isNaN(x)) and not(isNeg(a)) and not(isZero(a)) and (not(isNeg(x)) or isZero(x))

  pure def tolP(a: BF): int = ten(-9) + toWide(bfMul(bfInt(2), a)) / 10^14
  pure def domBeta(z: int, w: int): bool =
    not(isNaN(z)) and not(isNaN(w)) and not(isNeg(z)) and not(isZero(z)) and not(isNeg(w)) and not(isZero(w))
  pure def domBetai(a: int, b: int, x: int): bool =
    domBeta(a, b) and not(isNaN(x)) and (isZero(x) or (not(isNeg(x)) and x <= ONE))
  pure def tolI(a: BF, b: BF): int = 2 * ten(-9) + toWide(bfAdd(a, b)) / 10^13
  pure def domNu(nu: int, x: int, hi: int): bool =
    not(isNaN(nu)) and not(isInf(nu)) and (not(isNeg(nu)) or isZero(nu)) and wide(nu) <= 3000 * WONE
      and posFinite(x) and wide(x) <= hi
  pure def absBF(x: BF): BF = { m: abs(x.m), e: x.e }
  pure def mod2(re: int, im: int): int = re * re + im * im
  pure def finite2(a: int, b: int): bool = not(isNaN(a)) and not(isNaN(b)) and not(isInf(a)) and not(isInf(b))
  pure def wideBF(w: int): BF = bfTrim(400, { m: w, e: -WP })
  pure def encloseV(p: int, u: int, v: int): V =
    // u, v values at the two ends; share = position of p in the enclosure
    val lo = mini(u, v)
    val hi = maxi(u, v)
    val mid = (lo + hi) / 2
    val e = mini(abs(p - mid) * 1000 / maxi(1, (hi - lo) / 2), 999999)
    if (p >= lo and p <= hi) { c: 0, e: mini(e, 1000) } else { c: C_VALUE, e: maxi(1001, e) }
  pure def bracket(p: int, flo: int, fhi: int, t: int): V =
    val d = maxi(flo - p, p - fhi)
    if (d <= 0) PASS
    else {
      val e = mini(d * 1000 / maxi(t, 1), 999999)
      if (d <= t) { c: 0, e: mini(e, 1000) } else { c: C_VALUE, e: maxi(e, 1001) }
    }
  // ---------------------------------------------------------------- panics
  pure def mustPanic(v: Ev): bool =
    if (v.fn == GAMMP or v.fn == GAMMQ) not(domGammP(v.a, v.b))
    else if (v.fn == BETA) not(domBeta(v.a, v.b))
    else if (v.fn == BETAI) not(domBetai(v.a, v.b, v.c))
    else if (v.fn == INVGAMMP) not(isNaN(v.b)) and (isNeg(v.b) or isZero(v.b))
    else if (v.fn == BESSELJY or v.fn == BESSELIK or v.fn == JNU_YNU or v.fn == INU_KNU)
      (not(isNaN(v.b)) and (isNeg(v.b) or isZero(v.b))) or (not(isNaN(v.a)) and isNeg(v.a) and not(isZero(v.a)))
    else false
  // functions that document a panic: outside their domain of accuracy they may also panic
  // a probability the inverse functions must accept: anything but NaN and the far lower tail
  pure def tailArg(p: int): bool =
    not(isNaN(p)) and (isInf(p) or wide(p) <= 0 or wide(p) >= ten(-250))
  pure def mayPanic(v: Ev): bool =
    if (v.fn == INVGAMMP) not(inRange(v.b, ten(-4), ten(6))) or not(tailArg(v.a))
    else if (v.fn == INVBETAI)
      not(inRange(v.b, ten(-3), ten(5)) and inRange(v.c, ten(-3), ten(5))) or not(tailArg(v.a))
    else if (v.fn == BESSELJY or v.fn == JNU_YNU)
      not(domNu(v.a, v.b, 9500 * WONE)) or wide(v.b) < ten(-250)
    else if (v.fn == BESSELIK or v.fn == INU_KNU)
      not(domNu(v.a, v.b, 700 * WONE)) or wide(v.b) < ten(-250)
    else false
  pure def anyNaNArg(v: Ev): bool =
    if (v.fn == FACTORIAL) false
    else if (v.fn == JN or v.fn == YN or v.fn == IN or v.fn == KN) isNaN(v.b)
    else if (v.fn == LDEXP) isNaN(v.a)
    else if (v.fn == LAMBERTW) isNaN(v.b) or isNaN(v.c)
    else isNaN(v.a) or isNaN(v.b) or isNaN(v.c)
  pure def anyNaNOut(v: Ev): bool =
    if (v.fn == FREXP) isNaN(v.r)
    else isNaN(v.r) or isNaN(v.s) or isNaN(v.t) or isNaN(v.u)
  // the panic and NaN contract (property P26)
  pure def judgeTotal(v: Ev): V =
    if (v.out == -2) reject(C_HANG)
    else if (mustPanic(v)) need(v.out == -1, C_PANIC)
    else if (v.out == -1) need(mayPanic(v), C_PANIC)
    else if (anyNaNArg(v) and v.fn != SIGN_ and not(v.fn == INVBETAI and not(isNaN(v.a)) and not(inRange(v.a, 1, WONE - 1))))
      need(anyNaNOut(v), C_NAN)
    else PASS

  // ---- laws: relations between several calls ----
  pure val L_MONO: int = 1
  pure val L_SUM1: int = 2
  pure val L_RANGE: int = 3
  pure val L_PREC: int = 4
  pure val L_BSYM: int = 5
  pure val L_BPOW: int = 6
  pure val L_ODD: int = 7
  pure val L_PARITY: int = 8
  pure val L_ERFC_REFL: int = 9
  pure val L_GAMMA_FACT: int = 10
  pure val L_FACT_REC: int = 11
  pure val L_FAD_CONJ: int = 12
  pure val L_FAD_REFL: int = 13
  pure val L_FAD_IMAG: int = 14
  pure val L_FAD_REAL: int = 15
  pure val L_PAIR: int = 16
  pure val L_REC3: int = 17
  pure val L_WRONSKIAN: int = 18
  pure val L_CROSS: int = 19
  pure val L_DERIV: int = 20
  pure val L_LNGAMMA: int = 21
  pure val L_GAMMA_REC: int = 22
  pure val L_BETA_GAMMA: int = 23
  pure val L_P_ERF: int = 24
  pure val L_ERFCX: int = 25
  pure val L_POISSON: int = 26
  pure val L_BINOMIAL: int = 27
  pure val L_HALF: int = 28
  pure val L_INVERF: int = 29
  pure val L_INVERFC: int = 30
  pure val L_INVGAMMP: int = 31
  pure val L_INVBETAI: int = 32
  pure val L_INVMONO: int = 33

  pure def fin(b: int): bool = not(isNaN(b)) and not(isInf(b))
  pure def lawNear(got: int, want: int, tol: int): V =
    val v = near(got, want, tol)
    if (v.c == 0) v else { c: C_LAW, e: v.e }
  pure def lawNeed(c: bool): V = need(c, C_LAW)
  pure def asLaw(v: V): V = if (v.c == C_VALUE) { c: C_LAW, e: v.e } else v
  pure def R(e: Ev): int = wide(e.r)
  pure def wmul(x: int, y: int): int = x * y / WONE

  pure def relLaw(x: int, y: int, tol: int): V = lawNear(x, y, maxi(abs(x), abs(y)) * (tol / 2^1100) / 2^100 + 1)
  pure def lawOdd(g: List[Ev]): V = lawNeed(sameValue(g[0].r, negBits(g[1].r)))
  pure def lawParity(g: List[Ev]): V =
    if (g[0].a % 2 == 0) lawNeed(sameValue(g[0].r, g[1].r)) else lawNeed(sameValue(g[0].r, negBits(g[1].r)))
  pure def lawMono(g: List[Ev]): V =
    val x = R(g[0])
    val y = R(g[1])
    if (x <= y) PASS else lawNear(x, y, tolOf(g[0]))
  pure def lawSum1(g: List[Ev]): V =
    val t = tolOf(g[0])
    lawNear(R(g[0]) + R(g[1]), WONE, if (g[0].fn == BETAI) 2 * t else t)
  pure def tolOf(e: Ev): int =
    if (e.fn == GAMMP or e.fn == GAMMQ) tolP(val64(e.a))
    else if (e.fn == BETAI) tolI(val64(e.a), val64(e.b))
    else ten(-14)

  pure def allReturned(g: List[Ev]): bool = range(0, g.length()).foldl(true, (ok, i) => ok and g[i].out >= 0)
  pure def allFinite(g: List[Ev]): bool =
    range(0, g.length()).foldl(true, (ok, i) => ok and fin(g[i].r))
  pure def usable(v: int): bool = fin(v) and abs(wide(v)) < ten(280)

  pure def lawRange(e: Ev): V =
    val v = R(e)
    if (e.fn == GAMMP)
      lawNeed(v >= 0 and v <= WONE and (not(isZero(e.b)) or v == 0))
    else if (e.fn == GAMMQ)
      lawNeed(v >= 0 and v <= WONE and (not(isZero(e.b)) or v == WONE))
    else if (e.fn == BETAI) {
      val t = tolOf(e)
      lawNeed(v >= -t and v <= WONE + t and (not(isZero(e.c)) or v == 0) and (e.c != ONE or v == WONE))
    }
    else if (e.fn == ERF) lawNeed(abs(v) <= WONE)
    else lawNeed(v >= 0 and v <= 2 * WONE)
  // Relations every family shares
  pure def judgeSharedLaw(l: int, g: List[Ev]): V =
    if (l == L_ODD) lawOdd(g)
    else if (l == L_PARITY) lawParity(g)
    else if (l == L_PAIR) {
      // the pair form behaves exactly like the quadruple form, panics included
      if (g[0].out < 0 or g[1].out < 0) lawNeed(g[0].out == g[1].out)
      else lawNeed(sameBits(g[0].r, g[1].r) and sameBits(g[0].s, g[1].s))
    }
    else if (not(allFinite(g))) reject(C_NAN)
    else if (l == L_MONO) lawMono(g)
    else if (l == L_SUM1) lawSum1(g)
    else if (l == L_RANGE) lawRange(g[0])
    else reject(C_REF)
}
