// -*- mode: Bluespec; -*-
/// The two-body problem: state, integrals, universal functions, exact flow.
/// This is the abstract system that every part of astrodynx must refine.
module twobody {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"

  /// the abstract state of a coasting body
  type State = { r: V3, v: V3 }

  // ---- integrals of motion -------------------------------------------------
  pure def radius(s: State): int = norm(s.r)
  pure def speed2(s: State): int = dot(s.v, s.v)
  /// 1/a
  pure def alphaOf(mu: int, s: State): int = 2 * inv(norm(s.r)) - div(speed2(s), mu)
  pure def hvec(s: State): V3 = xprod(s.r, s.v)
  /// sqrt(mu) * sigma
  pure def rdotv(s: State): int = dot(s.r, s.v)
  pure def evec(mu: int, s: State): V3 =
    pure val r = norm(s.r)
    pure val vh = xprod(s.v, hvec(s))
    (div(vh._1, mu) - div(s.r._1, r), div(vh._2, mu) - div(s.r._2, r), div(vh._3, mu) - div(s.r._3, r))

  // ---- universal functions U_n(chi, alpha) = chi^n c_n(alpha chi^2) --------
  type UFun = { u0: int, u1: int, u2: int, u3: int, z: int }
  pure def ufun(chi: int, alpha: int): UFun =
    pure val z = mul(alpha, sq(chi))
    pure val s = stumpff(z)
    { u0: s.c0, u1: mul(chi, s.c1), u2: mul(sq(chi), s.c2), u3: mul(cube(chi), s.c3), z: z }
  pure def u4(chi: int, z: int, c2: int): int = mul(powF(chi, 4), c4of(z, c2))
  pure def u5(chi: int, z: int, c3: int): int = mul(powF(chi, 5), c5of(z, c3))

  // ---- universal Kepler equation -------------------------------------------
  /// f(chi) = r0 U1 + s0 U2 + U3 - tau, strictly increasing (f' = r > 0)
  pure def keplerF(u: UFun, r0: int, s0: int, tau: int): int =
    mul(r0, u.u1) + mul(s0, u.u2) + u.u3 - tau
  pure def keplerDF(u: UFun, r0: int, s0: int): int =
    mul(r0, u.u0) + mul(s0, u.u1) + u.u2

  /// Newton's method from a hint. The hint is untrusted: `res` of the result is the
  /// remaining residual and the caller must check it (see `solved`).
  pure def keplerChi(alpha: int, r0: int, s0: int, tau: int, hint: int): int =
    range(0, 3).foldl(hint, (chi, _) =>
      pure val u = ufun(chi, alpha)
      chi - div(keplerF(u, r0, s0, tau), keplerDF(u, r0, s0)))

  type Flow = {
    s: State, chi: int, alpha: int, r0: int, s0: int, rr: int, sqmu: int, tau: int,
    u: UFun, f: int, g: int, ft: int, gt: int, res: int }

  /// the exact flow of the two-body problem for a time dt
  pure def flow(mu: int, sqmu: int, x: State, dt: int, hint: int): Flow =
    pure val r0 = norm(x.r)
    pure val alpha = alphaOf(mu, x)
    pure val s0 = div(rdotv(x), sqmu)
    pure val tau = mul(sqmu, dt)
    pure val chi = keplerChi(alpha, r0, s0, tau, hint)
    pure val u = ufun(chi, alpha)
    pure val rr = keplerDF(u, r0, s0)
    pure val f = ONE - div(u.u2, r0)
    pure val g = div(mul(r0, u.u1) + mul(s0, u.u2), sqmu)
    pure val ft = 0 - div(mul(sqmu, u.u1), mul(rr, r0))
    pure val gt = ONE - div(u.u2, rr)
    { s: { r: lin(f, x.r, g, x.v), v: lin(ft, x.r, gt, x.v) },
      chi: chi, alpha: alpha, r0: r0, s0: s0, rr: rr, sqmu: sqmu, tau: tau, u: u,
      f: f, g: g, ft: ft, gt: gt,
      res: abs(keplerF(u, r0, s0, tau)) }

  /// did the oracle itself converge (relative to the size of the problem)?
  pure def solved(fl: Flow): bool = fl.res <= imax(abs(fl.tau), fl.r0) / 10^15 + 10^20

  // ---- conditioning --------------------------------------------------------
  /// amplification of the rounding error of alpha into the universal functions:
  /// 1 + min(chi^2 K, |chi| K / sqrt|alpha|), K = 2/r0 + v0^2/mu
  pure def amplify(chi: int, alpha: int, k: int): int =
    pure val near = mul(sq(chi), k)
    pure val sa = sqrtF(abs(alpha))
    pure val far = if (sa < 10^20) near else div(mul(abs(chi), k), sa)
    ONE + imin(near, far)

  // ---- sanity of the model itself -------------------------------------------
  run flowTest =
    pure val x = { r: (ONE, rat(1, 5), rat(1, 10)), v: (rat(-3, 10), rat(9, 10), rat(2, 5)) }
    pure val a0 = flow(ONE, ONE, x, 2 * ONE, rat(17, 10))
    pure val a = flow(ONE, ONE, x, 2 * ONE, a0.chi)
    pure val b = flow(ONE, ONE, a.s, 0 - 2 * ONE, 0 - a.chi)
    all {
      assert(solved(a)), assert(solved(b)),
      assert(dist(b.s.r, x.r) < 10^10), assert(dist(b.s.v, x.v) < 10^10),
      assert(dist(hvec(a.s), hvec(x)) < 10^10),
      assert(abs(alphaOf(ONE, a.s) - alphaOf(ONE, x)) < 10^10),
      assert(dist(evec(ONE, a.s), evec(ONE, x)) < 10^10),
      assert(abs(mul(a.f, a.gt) - mul(a.ft, a.g) - ONE) < 10^10),
    }
}
