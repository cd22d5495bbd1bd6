// -*- mode: Bluespec; -*-
/// Dimensional analysis of the public interface, and agreement between ways of calling.
module c_units {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import obl.* from "./obl"

  /// dimension of an output: twice the power of length, and the power of time
  type Dim = (int, int)
  pure val one: Dim = (0, 0)
  pure val len1: Dim = (2, 0)
  pure val speed: Dim = (2, -1)
  /// dimension of output `out` of function `fn` (numbering of harness/api.py)
  pure def dimOf(fn: int, out: int): Dim =
    if (fn <= 5) one                                   // Kepler's equations, mean anomalies
    else if (fn == 6) (3, 0)                           // universal Kepler equation
    else if (fn == 7) (1, 0)                           // generalized anomaly
    else if (fn == 8) (0, 1)                           // period
    else if (fn == 9) len1                           // semimajor axis of a period
    else if (fn == 10) (4, -1)                         // angular momentum
    else if (fn == 11) len1
    else if (fn == 12) one                             // eccentricity vector
    else if (fn == 13) len1
    else if (fn == 14) (0, -1)                         // mean motion
    else if (fn <= 20) len1                          // orbit equations, apsides, a <-> p
    else if (fn == 21) (if (out == 0) len1 else one) // elements of a state
    else if (fn == 22) (if (out == 0) len1 else speed)
    else if (fn <= 26) one                             // angles
    else if (fn == 27) (1, 0)                          // sigma
    else if (fn <= 33) (fn - 28, 0)                    // U_n has the dimension chi^n
    else if (fn == 34) one
    else if (fn == 35) (0, 1)
    else if (fn == 36) (0, -1)
    else if (fn == 37) one
    else if (fn == 38) (2, 1)                          // C
    else if (fn == 39) one
    else if (fn == 40) (0, 1)
    else if (fn == 41) (0, -1)
    else if (fn == 42) one
    else if (fn == 43) (if (out == 1) (0, 1) else if (out == 2) (0, -1) else one)
    else if (fn <= 47) one                             // counts and predicates
    else if (fn <= 51) (2, -2)                         // accelerations
    else if (fn == 52) len1                          // height above the threshold
    else if (fn <= 55) one                             // rotations
    else if (fn == 56) (if (out == 0) len1 else speed)
    else if (fn <= 58) one
    else if (fn == 59) (1, 0)
    else if (out == 0) (0, 1)                          // Cowell: times; states are split by the recorder
    else if (out == 1) len1 else speed

  /// factor of a dimension when lengths are counted in units 4^k smaller, times 2^m smaller
  pure def factor(d: Dim, k: int, m: int): int =
    pure val e = k * d._1 + m * d._2
    if (e >= 0) ONE * 2^e else ONE / 2^(0 - e)

  /// values (observed there, observed here, tolerance): the worst pair against its tolerance
  pure def worstPair(ps: List[(int, int, int)]): (int, int) =
    ps.foldl((0, ONE), (acc, p) =>
      pure val e = abs(p._1 - p._2)
      if (e * acc._2 > acc._1 * imax(p._3, 1)) (e, imax(p._3, 1)) else acc)

  /// op 91: the same problem in two systems of units: [fn, out, k, m, (a, b, tol of b)*]
  pure def oblScaled(l: List[int]): List[Obl] =
    pure val f = factor(dimOf(l[0] / ONE, l[1] / ONE), l[2] / ONE, l[3] / ONE)
    pure val w = worstPair(range(0, (l.length() - 4) / 3).foldl([], (acc, i) =>
      acc.append((mul(l[4 + 3 * i], f), l[5 + 3 * i], l[6 + 3 * i] + 10^6 + mul(f, 10)))))
    [ (1, w._1, w._2) ]

  /// op 93: the same problem asked in two ways: [(a, b, tol)*]
  pure def oblPairs(l: List[int]): List[Obl] =
    pure val w = worstPair(range(0, l.length() / 3).foldl([], (acc, i) =>
      acc.append((l[3 * i], l[3 * i + 1], l[3 * i + 2] + 10^6))))
    [ (1, w._1, w._2) ]

  run dimTest = all {
    assert(factor((2, -1), 1, 1) == 2 * ONE), assert(factor((0, -2), 3, 2) == ONE / 16),
    assert(dimOf(31, 0) == (3, 0)), assert(dimOf(8, 0) == (0, 1)), assert(dimOf(48, 0) == (2, -2)) }
}
