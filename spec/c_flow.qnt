// -*- mode: Bluespec; -*-
/// Contracts of Kepler propagation (prop.kepler): the returned state lies on the orbit of
/// the initial state (to rounding) and is reached at the requested time (to the documented
/// tolerance 1e-6 of the universal Kepler equation).
module c_flow {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"

  /// residual tolerance of solve_kepler_uni, its documented default
  pure val TOL_UNI: int = ONE / 1000000

  /// Rounding budgets of one propagation, derived from the sizes of the terms it adds up.
  type Budget = { pos: int, vel: int, time: int, amp: int, onPos: int, onVel: int }
  pure def budget(mu: int, x: State, dt: int, fl: Flow, eps: int, k: int): Budget =
    pure val v0 = norm(x.v)
    pure val kk = 2 * inv(fl.r0) + div(sq(v0), mu)
    pure val amp = amplify(fl.chi, fl.alpha, kk)
    pure val t1 = abs(mul(fl.r0, fl.u.u1))
    pure val t2 = abs(mul(fl.s0, fl.u.u2))
    pure val sumT = t1 + t2 + abs(fl.u.u3) + abs(fl.tau)
    pure val sumR = abs(mul(fl.r0, fl.u.u0)) + abs(mul(fl.s0, fl.u.u1)) + abs(fl.u.u2)
    pure val ampR = mul(amp, div(sumR, fl.rr))
    pure val keps = k * eps
    pure val time = div((TOL_UNI * 11) / 10 + mul(mul(keps, amp), sumT), fl.sqmu)
    pure val onPos = mul(mul(keps, amp),
      mul(ONE + abs(div(fl.u.u2, fl.r0)), fl.r0) + mul(div(t1 + t2, fl.sqmu), v0))
    pure val onVel = mul(mul(keps, ampR),
      mul(abs(fl.ft), fl.r0) + mul(ONE + abs(div(fl.u.u2, fl.rr)), v0))
    pure val v1 = norm(fl.s.v)
    pure val g1 = div(mu, sq(fl.rr))
    { pos: onPos + (mul(v1, time) * 3) / 2,
      vel: onVel + (mul(g1, time) * 3) / 2,
      time: time, amp: amp, onPos: onPos, onVel: onVel }

  /// is the timing budget short compared with the local dynamical time (else the
  /// first-order conversion of time error to state error is not valid)?
  pure def timeResolved(fl: Flow, b: Budget): bool =
    mul(b.time, norm(fl.s.v)) * 10 <= fl.rr

  /// errors of (h, energy, eccentricity vector) implied by rounding alone: a timing error
  /// moves the body along its orbit and leaves them alone
  pure def kept(mu: int, x: State, y: State, fl: Flow, b: Budget, eps: int): (int, int, int) =
    pure val ra = norm(y.r)
    pure val va = norm(y.v)
    pure val v0 = norm(x.v)
    pure val hTol = mul(b.onPos, va) + mul(b.onVel, ra) + 16 * mul(eps, mul(ra, va) + mul(fl.r0, v0))
    pure val eTol = mul(va, b.onVel) + div(mul(mu, b.onPos), sq(ra))
                    + 16 * mul(eps, sq(va) + sq(v0) + div(mu, ra) + div(mu, fl.r0))
    pure val gTol = div(2 * mul(va, hTol) + mul(b.onVel, norm(hvec(x))), mu) + div(2 * b.onPos, ra)
                    + 16 * mul(eps, ONE)
    (hTol, eTol, gTol)

  /// [mu, dt, hint, r0(3), v0(3), r(3), v(3)]
  pure def oblKepler(eps: int, f: List[int]): List[Obl] =
    pure val mu = f[0]
    pure val dt = f[1]
    pure val x = { r: v3(f, 3), v: v3(f, 6) }
    pure val y = { r: v3(f, 9), v: v3(f, 12) }
    pure val fl = flow(mu, sqrtF(mu), x, dt, f[2])
    if (not(solved(fl))) [(9, ONE, 0)] else
    pure val b = budget(mu, x, dt, fl, eps, 16)
    pure val k = kept(mu, x, y, fl, b, eps)
    [ closeV(1, y.r, fl.s.r, b.pos),
      closeV(2, y.v, fl.s.v, b.vel),
      closeV(3, hvec(y), hvec(x), k._1),
      close(4, mul(mu, alphaOf(mu, y)), mul(mu, alphaOf(mu, x)), 2 * k._2),
      closeV(5, evec(mu, y), evec(mu, x), k._3) ].select(o => o._1 > 2 or timeResolved(fl, b))

  /// the generalized anomaly computed from two states of one orbit and the time between them
  /// is the root of the universal equation: [mu, dt, hint, x0(6), out]
  pure def oblChi(eps: int, f: List[int]): List[Obl] =
    pure val mu = f[0]
    pure val x = { r: v3(f, 3), v: v3(f, 6) }
    pure val fl = flow(mu, sqrtF(mu), x, f[1], f[2])
    if (not(solved(fl))) [(9, ONE, 0)] else
    pure val b = budget(mu, x, f[1], fl, eps, 16)
    pure val v0 = norm(x.v)
    pure val v1 = norm(fl.s.v)
    pure val kk = 2 * inv(fl.r0) + div(sq(v0), mu)
    pure val tol = div(mul(fl.rr, b.vel) + mul(v1, b.pos), fl.sqmu)
      + ulps(32, eps, mul(kk, abs(fl.tau)) + div(mul(fl.r0, v0) + mul(fl.rr, v1), fl.sqmu))
    List(close(1, f[9], fl.chi, tol)).select(_ => timeResolved(fl, b))
}
