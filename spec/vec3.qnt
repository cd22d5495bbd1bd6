// -*- mode: Bluespec; -*-
/// Vectors of R^3 over the fixed-point reals.
module vec3 {
  import fixed.* from "./fixed"
  type V3 = (int, int, int)

  pure def v3(l: List[int], i: int): V3 = (l[i], l[i + 1], l[i + 2])
  pure def add(a: V3, b: V3): V3 = (a._1 + b._1, a._2 + b._2, a._3 + b._3)
  pure def sub(a: V3, b: V3): V3 = (a._1 - b._1, a._2 - b._2, a._3 - b._3)
  pure def scale(k: int, a: V3): V3 = ((k * a._1) / ONE, (k * a._2) / ONE, (k * a._3) / ONE)
  pure def dot(a: V3, b: V3): int = (a._1 * b._1 + a._2 * b._2 + a._3 * b._3) / ONE
  pure def xprod(a: V3, b: V3): V3 =
    ((a._2 * b._3 - a._3 * b._2) / ONE,
     (a._3 * b._1 - a._1 * b._3) / ONE,
     (a._1 * b._2 - a._2 * b._1) / ONE)
  pure def norm(a: V3): int = isqrt(a._1 * a._1 + a._2 * a._2 + a._3 * a._3)
  /// max-norm
  pure def amax(a: V3): int = imax(abs(a._1), imax(abs(a._2), abs(a._3)))
  pure def dist(a: V3, b: V3): int = amax(sub(a, b))
  /// axpy: k a + m b
  pure def lin(k: int, a: V3, m: int, b: V3): V3 =
    ((k * a._1 + m * b._1) / ONE, (k * a._2 + m * b._2) / ONE, (k * a._3 + m * b._3) / ONE)
  pure def ev(i: int): V3 = if (i == 0) (ONE, 0, 0) else if (i == 1) (0, ONE, 0) else (0, 0, ONE)
  pure def comp(a: V3, i: int): int = if (i == 0) a._1 else if (i == 1) a._2 else a._3
}
