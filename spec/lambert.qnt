// The Lambert W function, specified by its defining equation and the numbering of its branches.
module lambert {
  import num.* from "./num"

  pure val QP: int = 200
  pure val QS: int = 2^200

  // w e^w for an exact real w, |w| < 2^11
  pure def wexpw(w: BF): BF = bfMul(w, expBF(QP, bfFix(QP, w)))

  // Angle of (x, y) in (-pi, pi], at precision 100; (x, y) fixed at any common scale, not both 0.
  // Three half-angle steps, then the arctangent series.
  pure def angle(x: int, y: int): int =
    val P = 120
    val S = 2^P
    val b = maxi(bitLen(abs(x)), bitLen(abs(y)))
    val xs = shift(x, P - b)
    val ys = shift(y, P - b)
    // reflect into the right half plane
    val h = range(0, 4).foldl((abs(xs), ys), (v, _i) => (v._1 + isqrt(v._1 * v._1 + v._2 * v._2), v._2))
    val t = h._2 * S / h._1
    val t2 = t * t / S
    val a = 16 * range(0, 28).foldl((t, 0), (c, k) =>
      (-(c._1 * t2 / S), c._2 + c._1 / (2 * k + 1)))._2
    val r = if (xs >= 0) a else if (ys >= 0) piFix(P) - a else -piFix(P) - a
    r / 2^20

  // Residual of w e^w = z for complex w, z (fixed at QP): (re, im) at QP
  pure def cwexpw(wr: int, wi: int): (BF, BF) =
    val e = expBF(QP, wr)
    val sc = sinCos(QP, wi)
    (bfMul(e, { m: wr * sc._2 - wi * sc._1, e: -2 * QP }), bfMul(e, { m: wr * sc._1 + wi * sc._2, e: -2 * QP }))
  // Branch k of w for z = w e^w: nearest integer to (Im w + arg w - arg z) / 2 pi, at precision 40
  pure def branchFix(wr: int, wi: int, zr: int, zi: int): int =
    (wi / 2^100 + angle(wr, wi) - angle(zr, zi)) * 2^40 / (2 * piFix(100))
}
