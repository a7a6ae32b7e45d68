// IEEE-754 binary64 values as 64-bit integers, decoded exactly.
module ieee {
  import num.* from "./num"

  pure val SIGN: int = 2^63
  pure val INFBITS: int = 2047 * 2^52
  pure def isNeg(b: int): bool = b >= SIGN
  pure def magBits(b: int): int = if (b >= SIGN) b - SIGN else b
  pure def isNaN(b: int): bool = magBits(b) > INFBITS
  pure def isInf(b: int): bool = magBits(b) == INFBITS
  pure def isFin(b: int): bool = magBits(b) < INFBITS
  pure def isZero(b: int): bool = magBits(b) == 0
  pure def negBits(b: int): int = if (b >= SIGN) b - SIGN else b + SIGN
  // Exact value of a finite double
  pure def val64(b: int): BF =
    val g = magBits(b)
    val ex = g / 2^52
    val fr = g % 2^52
    val m = if (ex == 0) fr else fr + 2^52
    val e = if (ex == 0) -1074 else ex - 1075
    { m: if (b >= SIGN) -m else m, e: e }
  pure def wide(b: int): int = toWide(val64(b))
  // Doubles in numeric order as integers (+0 and -0 coincide)
  pure def ordKey(b: int): int = if (b >= SIGN) -(b - SIGN) else b
  // Same double, NaN payloads and zero signs identified
  pure def sameValue(a: int, b: int): bool =
    (isNaN(a) and isNaN(b)) or a == b or (isZero(a) and isZero(b))
  pure def sameBits(a: int, b: int): bool = (isNaN(a) and isNaN(b)) or a == b
  // Round a BF to the nearest double (ties to even), with overflow to infinity
  pure def roundBits(x: BF): int =
    if (x.m == 0) 0
    else {
      val s = if (x.m < 0) SIGN else 0
      val a = abs(x.m)
      val top = x.e + bitLen(a)                  // 2^(top-1) <= |x| < 2^top
      if (top > 1024) s + INFBITS
      else {
        val ue = maxi(top - 53, -1074)           // exponent of the last place
        val d = x.e - ue
        val q =
          if (d >= 0) a * 2^d
          else {
            val D = 2^(-d)
            val fl = a / D
            val rem = a - fl * D
            if (2 * rem > D or (2 * rem == D and fl % 2 == 1)) fl + 1 else fl
          }
        // q <= 2^53; a carry to 2^53 is absorbed by the encoding
        val enc = if (ue == -1074) q else (ue + 1074) * 2^52 + q
        s + mini(enc, INFBITS)
      }
    }
}
