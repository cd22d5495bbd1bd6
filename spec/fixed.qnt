// -*- mode: Bluespec; -*-
/// Exact decimal fixed-point arithmetic on unbounded integers.
/// A real number x is represented by the integer round(x * ONE).
/// Every library value that enters the specification is an IEEE float, recorded
/// exactly to 40 decimals; so the oracle error (about 1e-36) is negligible against
/// the tolerances of the properties (1e-13 and coarser).
module fixed {
  pure val ONE: int = 10^40
  pure val PI: int = 31415926535897932384626433832795028841972
  pure val TWOPI: int = 62831853071795864769252867665590057683943

  pure def abs(a: int): int = if (a < 0) 0 - a else a
  pure def imax(a: int, b: int): int = if (a < b) b else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def sgn(a: int): int = if (a < 0) 0 - 1 else if (a > 0) 1 else 0

  pure def mul(a: int, b: int): int = (a * b) / ONE
  pure def div(a: int, b: int): int = (a * ONE) / b
  pure def sq(a: int): int = (a * a) / ONE
  pure def cube(a: int): int = mul(sq(a), a)
  /// the rational p/q
  pure def rat(p: int, q: int): int = (p * ONE) / q
  pure def intF(n: int): int = n * ONE
  pure def inv(a: int): int = (ONE * ONE) / a
  /// a^n for a small natural n
  pure def powF(a: int, n: int): int = range(0, n).foldl(ONE, (acc, _) => mul(acc, a))

  /// integer square root of n >= 0, rounded down (up to one unit)
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else
      pure val start = [64, 32, 16, 8, 4, 2, 1].foldl((n, 1), (st, k) =>
        if (st._1 >= 10^(2 * k)) (st._1 / 10^(2 * k), st._2 * 10^k) else st)
      // start._1 in [1, 100): root between start._2 and 10 * start._2
      range(0, 10).foldl(start._2 * 4, (g, _) => (g + n / g) / 2)

  pure def sqrtF(a: int): int = isqrt(a * ONE)

  /// distance to the nearest multiple of TWOPI, signed, in (-PI, PI]
  pure def wrapPi(a: int): int =
    pure val k = if (a >= 0) (a + PI) / TWOPI else 0 - ((PI - a) / TWOPI)
    a - k * TWOPI

  /// The Stumpff functions c0..c5 at z (z > 0 trigonometric, z < 0 hyperbolic):
  /// c_n(z) = sum_k (-z)^k / (n + 2k)!
  /// Series on z / 4^k followed by k exact doublings, so it is uniform in z.
  type Stumpff = { c0: int, c1: int, c2: int, c3: int }

  pure def stumpff(z: int): Stumpff =
    pure val red = range(0, 16).foldl((z, 0), (st, _) =>
      if (abs(st._1) > ONE / 10) (st._1 / 4, st._2 + 1) else st)
    pure val w = red._1
    // Horner: c2 = 1/2 (1 - w/(3*4) (1 - w/(5*6) (1 - ...)))
    pure val h = [13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1].foldl((ONE, ONE), (st, k) =>
      (ONE - mul(w, st._1) / ((2 * k + 1) * (2 * k + 2)),
       ONE - mul(w, st._2) / ((2 * k + 2) * (2 * k + 3))))
    pure val d2 = h._1 / 2
    pure val d3 = h._2 / 6
    pure val base = { c0: ONE - mul(w, d2), c1: ONE - mul(w, d3), c2: d2, c3: d3 }
    range(0, red._2).foldl(base, (s, _) => {
      c0: 2 * sq(s.c0) - ONE,
      c1: mul(s.c0, s.c1),
      c2: sq(s.c1) / 2,
      c3: (s.c2 + mul(s.c0, s.c3)) / 4 })

  pure def c4of(z: int, c2: int): int =
    if (abs(z) >= ONE) div(ONE / 2 - c2, z)
    else range(1, 18).foldl(ONE, (acc, j) =>
      pure val k = 18 - j
      ONE - mul(z, acc) / ((2 * k + 3) * (2 * k + 4))) / 24

  pure def c5of(z: int, c3: int): int =
    if (abs(z) >= ONE) div(ONE / 6 - c3, z)
    else range(1, 18).foldl(ONE, (acc, j) =>
      pure val k = 18 - j
      ONE - mul(z, acc) / ((2 * k + 4) * (2 * k + 5))) / 120

  pure def cosF(x: int): int = stumpff(sq(x)).c0
  pure def sinF(x: int): int = mul(x, stumpff(sq(x)).c1)
  pure def coshF(x: int): int = stumpff(0 - sq(x)).c0
  pure def sinhF(x: int): int = mul(x, stumpff(0 - sq(x)).c1)
  pure def sincos(x: int): (int, int) =
    pure val s = stumpff(sq(x))
    (mul(x, s.c1), s.c0)

  // ---- sanity (quint test) ----
  run sqrtTest = all {
    assert(abs(sq(sqrtF(2 * ONE)) - 2 * ONE) < 100),
    assert(abs(sqrtF(rat(1, 1000000)) - rat(1, 1000)) < 100),
    assert(abs(sqrtF(10^30 * ONE) - 10^15 * ONE) < 100),
    assert(isqrt(0) == 0),
  }
  run trigTest = all {
    assert(abs(cosF(PI) + ONE) < 10^8),
    assert(abs(sinF(30 * PI + PI / 6) - ONE / 2) < 10^10),
    assert(abs(sq(coshF(5 * ONE)) - sq(sinhF(5 * ONE)) - ONE) < 10^12),
    assert(abs(c4of(ONE / 1000, stumpff(ONE / 1000).c2) - div(ONE / 2 - stumpff(ONE / 1000).c2, ONE / 1000)) < 10^6),
    assert(abs(c5of(0 - ONE / 3, stumpff(0 - ONE / 3).c3) - div(ONE / 6 - stumpff(0 - ONE / 3).c3, 0 - ONE / 3)) < 10^6),
    assert(abs(wrapPi(TWOPI + 5) - 5) < 2), assert(abs(wrapPi(5 - TWOPI) - 5) < 2),
    assert(abs(wrapPi(0 - PI / 2) + PI / 2) < 2),
  }
}
