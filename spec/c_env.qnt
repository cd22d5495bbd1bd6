// -*- mode: Bluespec; -*-
/// Contracts of the force models, of Cowell propagation and of the path predicates.
module c_env {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"
  import c_flow.* from "./c_flow"

  // ---- zonal gravity -----------------------------------------------------------
  /// Legendre polynomials (P_n, P_{n-1}) at u, by Bonnet's recursion
  pure def legendre(n: int, u: int): int =
    range(1, n).foldl((u, ONE), (st, k) =>
      (((2 * k + 1) * mul(u, st._1) - k * st._2) / (k + 1), st._1))._1

  /// force function of the zonal harmonic n >= 2 (n = 1 stands for the point mass)
  pure def potential(n: int, mu: int, j: int, req: int, x: V3): int =
    pure val r = norm(x)
    if (n == 1) div(mu, r)
    else 0 - mul(mul(div(mu, r), j), mul(powF(div(req, r), n), legendre(n, div(x._3, r))))

  /// its gradient, by central differences at step 1e-9 r
  pure def gradient(n: int, mu: int, j: int, req: int, x: V3): V3 =
    pure val h = norm(x) / 10^9
    pure def d(i: int): int =
      div(potential(n, mu, j, req, add(x, scale(h, ev(i)))) - potential(n, mu, j, req, sub(x, scale(h, ev(i)))), 2 * h)
    (d(0), d(1), d(2))

  /// [n, mu, J, Req, x(3), a(3)]
  pure def oblGravity(eps: int, l: List[int]): List[Obl] =
    pure val n = l[0] / ONE
    pure val x = v3(l, 4)
    pure val r = norm(x)
    pure val g = gradient(n, l[1], l[2], l[3], x)
    pure val sc = if (n == 1) div(l[1], sq(r))
      else (n + 1) * (n + 1) * mul(mul(div(l[1], sq(r)), abs(l[2])), powF(div(l[3], r), n))
    [ closeV(n, v3(l, 7), g, ulps(32, eps, sc) + sc / 10^15 + 10^12) ]

  // ---- the zonal problem, integrated by the specification itself ---------------
  type Env = { mu: int, j2: int, j3: int, j4: int, req: int }

  pure def zonal(n: int, mu: int, j: int, req: int, x: V3, r: int): V3 =
    if (j == 0) (0, 0, 0) else
      pure val u = div(x._3, r)
      pure val p = legendre(n, u)
      // (u^2 - 1) P_n' = n (u P_n - P_{n-1}) is singular at the poles: differentiate the recursion instead
      pure val dp = range(1, n).foldl((u, ONE, ONE, 0), (st, k) =>
        (((2 * k + 1) * mul(u, st._1) - k * st._2) / (k + 1), st._1,
         ((2 * k + 1) * (st._1 + mul(u, st._3)) - k * st._4) / (k + 1), st._3))._3
      pure val c = mul(mul(div(mu, sq(r)), j), powF(div(req, r), n))
      pure val radial = div(mul(c, (n + 1) * p + mul(u, dp)), r)
      pure val s = scale(radial, x)
      (s._1, s._2, s._3 - mul(c, dp))

  pure def accel(env: Env, x: V3): V3 =
    pure val r = norm(x)
    pure val k = 0 - div(env.mu, cube(r))
    add(scale(k, x), add(zonal(2, env.mu, env.j2, env.req, x, r),
      add(zonal(3, env.mu, env.j3, env.req, x, r), zonal(4, env.mu, env.j4, env.req, x, r))))

  /// one classical Runge-Kutta step
  pure def rk4(env: Env, s: State, h: int): State =
    pure val a1 = accel(env, s.r)
    pure val v2 = add(s.v, scale(h / 2, a1))
    pure val a2 = accel(env, add(s.r, scale(h / 2, s.v)))
    pure val v3_ = add(s.v, scale(h / 2, a2))
    pure val a3 = accel(env, add(s.r, scale(h / 2, v2)))
    pure val v4 = add(s.v, scale(h, a3))
    pure val a4 = accel(env, add(s.r, scale(h, v3_)))
    { r: add(s.r, scale(h / 6, add(add(s.v, v4), scale(2 * ONE, add(v2, v3_))))),
      v: add(s.v, scale(h / 6, add(add(a1, a4), scale(2 * ONE, add(a2, a3))))) }
  pure def integrate(env: Env, s: State, t: int, n: int): State =
    range(0, n).foldl(s, (x, _) => rk4(env, x, t / n))

  /// one explicit Euler step, and one explicit midpoint step (solver choice is honoured)
  pure def euler(env: Env, s: State, h: int): State =
    { r: add(s.r, scale(h, s.v)), v: add(s.v, scale(h, accel(env, s.r))) }
  pure def midpoint(env: Env, s: State, h: int): State =
    pure val m = euler(env, s, h / 2)
    { r: add(s.r, scale(h, m.v)), v: add(s.v, scale(h, accel(env, m.r))) }

  /// [mu, j2, j3, j4, req]
  pure def envAt(l: List[int], k: int): Env = { mu: l[k], j2: l[k + 1], j3: l[k + 2], j4: l[k + 3], req: l[k + 4] }

  pure def energy(env: Env, s: State): int =
    speed2(s) / 2 - potential(1, env.mu, 0, env.req, s.r)
    - (if (env.j2 == 0) 0 else potential(2, env.mu, env.j2, env.req, s.r))
    - (if (env.j3 == 0) 0 else potential(3, env.mu, env.j3, env.req, s.r))
    - (if (env.j4 == 0) 0 else potential(4, env.mu, env.j4, env.req, s.r))

  /// accuracy that an integration with local tolerance `tol` (relative to the state) may
  /// lose in `steps` steps over dt: the local errors, carried along by the flow
  pure def driftTol(mu: int, x: State, dt: int, tol: int, steps: int): (int, int) =
    pure val r = norm(x.r)
    pure val v = norm(x.v)
    // shortest dynamical rate on the orbit: at periapsis, rate = sqrt(mu / rp^3)
    pure val e = norm(evec(mu, x))
    pure val rp = div(div(sq(norm(hvec(x))), mu), ONE + e)
    pure val vp = div(norm(hvec(x)), rp)
    pure val big = imax(r, imax(rp, mul(v, abs(dt)) + r))
    pure val grow = 4 * ONE + 6 * mul(div(vp, rp), abs(dt))
    pure val loc = mul(tol, grow) * (steps + 4)
    (mul(loc, big), mul(loc, vp))

  /// a row of an unperturbed Cowell solution agrees with the exact flow
  /// [mu, dt, hint, x0(6), y(6), tol, steps]
  pure def oblCowell(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val x = { r: v3(l, 3), v: v3(l, 6) }
    pure val fl = flow(mu, sqrtF(mu), x, l[1], l[2])
    if (not(solved(fl))) [(9, ONE, 0)] else
    pure val t = driftTol(mu, x, l[1], l[15] + 20 * eps, l[16] / ONE)
    [ closeV(1, v3(l, 9), fl.s.r, t._1), closeV(2, v3(l, 12), fl.s.v, t._2) ]

  /// a row of a zonal Cowell solution keeps the energy and the polar angular momentum,
  /// and (n > 0) agrees with the specification's own integration in n steps
  /// [env(5), dt, x0(6), y(6), tol, steps, n]
  pure def oblZonal(eps: int, l: List[int]): List[Obl] =
    pure val env = envAt(l, 0)
    pure val x = { r: v3(l, 6), v: v3(l, 9) }
    pure val y = { r: v3(l, 12), v: v3(l, 15) }
    pure val t = driftTol(env.mu, x, l[5], l[18] + 20 * eps, l[19] / ONE)
    pure val v = norm(x.v) + norm(y.v)
    pure val g = div(env.mu, sq(imin(norm(x.r), norm(y.r))))
    pure val base = [
      close(1, energy(env, y), energy(env, x), mul(v, t._2) + 2 * mul(g, t._1)),
      close(2, hvec(y)._3, hvec(x)._3, mul(norm(y.r), t._2) + mul(v, t._1)) ]
    pure val n = l[20] / ONE
    if (n == 0) base else
      pure val z = integrate(env, x, l[5], n)
      pure val zh = integrate(env, x, l[5], n / 2)
      // Richardson: the step-doubling difference bounds the oracle's own error
      pure val oR = dist(z.r, zh.r) / 4
      pure val oV = dist(z.v, zh.v) / 4
      base.concat([ closeV(3, y.r, z.r, t._1 + oR), closeV(4, y.v, z.v, t._2 + oV) ])

  /// a solution made of n fixed steps of a named one-step method (0 Euler, 1 midpoint)
  /// [method, env(5), h, n, x0(6), y(6)]
  pure def oblMethod(eps: int, l: List[int]): List[Obl] =
    pure val env = envAt(l, 1)
    pure val x = { r: v3(l, 8), v: v3(l, 11) }
    pure val n = l[7] / ONE
    pure val z = range(0, n).foldl(x, (s, _) => if (l[0] == 0) euler(env, s, l[6]) else midpoint(env, s, l[6]))
    pure val k = ulps(64 * (n + 1), eps, ONE + n * mul(l[6], div(norm(x.v), norm(x.r))))
    [ closeV(1, v3(l, 14), z.r, mul(k, norm(x.r) + norm(z.r))),
      closeV(2, v3(l, 17), z.v, mul(k, norm(x.v) + norm(z.v))) ]

  /// radius_islow: [rmin, x(3), out]
  pure def oblRadius(eps: int, l: List[int]): List[Obl] =
    pure val r = norm(v3(l, 1))
    [ close(1, l[4], r - l[0], ulps(16, eps, r + abs(l[0]))) ]

  /// an event located by a root finder: the solution ends on the first descent through rmin
  /// [mu, x0(6), rmin, t, hint, tolR]
  pure def oblDescent(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val x = { r: v3(l, 1), v: v3(l, 4) }
    pure val sq0 = sqrtF(mu)
    pure val fl = flow(mu, sq0, x, l[8], l[9])
    if (not(solved(fl))) [(9, ONE, 0)] else
    pure val al = alphaOf(mu, x)
    // a bound orbit descends through a radius once per revolution
    pure val turn = if (al <= 0) 0 else mul(l[8], mul(sq0, mul(al, sqrtF(al))))
    [ close(1, fl.rr, l[7], mul(l[10], fl.r0) + ulps(64, eps, fl.r0)),
      holds(2, dot(fl.s.r, fl.s.v) < mul(ONE / 1000, mul(fl.rr, norm(fl.s.v)))),
      holds(3, turn < TWOPI) ]

  // ---- path predicates -------------------------------------------------------------
  /// answers within a margin of the decision boundary are left open
  pure val MARGIN: int = ONE / 1000
  pure def decided(c: int, out: int, want: bool, clear: bool): Obl =
    holds(c, not(clear) or (out == ONE) == want)

  /// is angle(e -> b) < angle(e -> a), both measured along the motion, in [0, 2 pi)?
  pure def ahead(h: V3, e: V3, a: V3, b: V3): bool =
    pure val sa = dot(h, xprod(e, a))
    pure val sb = dot(h, xprod(e, b))
    if (sa >= 0 and sb < 0) false
    else if (sa < 0 and sb >= 0) true
    else dot(h, xprod(b, a)) > 0

  pure def unit(a: V3): V3 = scale(inv(imax(norm(a), 10^10)), a)

  /// [kind, mu, r1(3), v1(3), r2(3), out]; kind 0 is_short_way, 1 pass_perigee
  pure def oblPath(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[1]
    pure val x = { r: v3(l, 2), v: v3(l, 5) }
    pure val h = unit(hvec(x))
    pure val a = unit(x.r)
    pure val b = unit(v3(l, 8))
    pure val sth = dot(h, xprod(a, b))
    if (l[0] == 0)
      [ decided(1, l[11], sth > 0, abs(sth) > MARGIN) ]
    else
      pure val ecc = evec(mu, x)
      pure val e = unit(ecc)
      pure val clear = abs(sth) > MARGIN and norm(ecc) > MARGIN
        and norm(sub(e, a)) > MARGIN and norm(sub(e, b)) > MARGIN
        and norm(add(e, a)) > 0
      [ decided(2, l[11], ahead(h, e, a, b), clear) ]

  /// [mu, rmin, r(3), v(3), out]
  pure def oblLow(eps: int, l: List[int]): List[Obl] =
    pure val x = { r: v3(l, 2), v: v3(l, 5) }
    pure val rp = div(div(sq(norm(hvec(x))), l[0]), ONE + norm(evec(l[0], x)))
    [ decided(1, l[8], rp < l[1], abs(rp - l[1]) > mul(MARGIN, l[1])) ]

  /// [rpmin, r1, r2, tof, mu, out]: the most whole revolutions of any orbit that reaches both
  /// radii and stays above rpmin, i.e. the smallest admissible period fits that often into tof
  pure def oblNmax(eps: int, l: List[int]): List[Obl] =
    pure val a = (imax(l[1], l[2]) + l[0]) / 2
    pure val period = mul(TWOPI, sqrtF(div(cube(a), l[4])))
    pure val n = l[5] / ONE
    pure val slack = ulps(64, eps, imax(l[3], period))
    [ holds(1, n * ONE == l[5] and n >= 0),
      holds(2, n * period <= l[3] + slack and l[3] <= (n + 1) * period + slack) ]
}
