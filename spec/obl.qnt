// -*- mode: Bluespec; -*-
/// Obligations: what an observed call must satisfy.
/// An obligation (clause, err, tol) is met iff err <= tol.
module obl {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  type Obl = (int, int, int)

  /// a claim that is either true or false
  pure def holds(c: int, b: bool): Obl = if (b) (c, 0, ONE) else (c, ONE, 0)
  pure def close(c: int, a: int, b: int, tol: int): Obl = (c, abs(a - b), tol)
  pure def closeV(c: int, a: V3, b: V3, tol: int): Obl = (c, dist(a, b), tol)
  /// k * eps * scale, never below the resolution of the recording
  pure def ulps(k: int, eps: int, scale: int): int = k * mul(eps, abs(scale)) + 10^6
}
