// -*- mode: Bluespec; -*-
/// Contracts of the sensitivities of numerical propagation: reverse-mode derivatives of every
/// mode, with respect to the initial state, the parameters of the dynamics and the final time.
/// Oracle: central differences (step 1e-11 on 40 decimals) of the exact Runge-Kutta recurrence
/// on the grid of the call, or of the exact flow when the controller chose the steps.
module c_sens {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"
  import c_flow.* from "./c_flow"
  import c_stm.* from "./c_stm"
  import c_env.* from "./c_env"
  import methods.* from "./methods"

  /// what is varied: 0..5 the initial state, 6 mu, 7..9 J2..J4, 10 the reference radius, 11 the time
  type World = { env: Env, x: State, ts: List[int] }
  pure def vary(w: World, p: int, d: int): World =
    if (p < 6) w.with("x", bump(w.x, p, d))
    else if (p == 6) w.with("env", w.env.with("mu", w.env.mu + d))
    else if (p == 7) w.with("env", w.env.with("j2", w.env.j2 + d))
    else if (p == 8) w.with("env", w.env.with("j3", w.env.j3 + d))
    else if (p == 9) w.with("env", w.env.with("j4", w.env.j4 + d))
    else if (p == 10) w.with("env", w.env.with("req", w.env.req + d))
    else
      // the whole grid is stretched: its last time grows by d
      pure val k = ONE + div(d, w.ts[w.ts.length() - 1])
      w.with("ts", w.ts.foldl([], (acc, t) => acc.append(mul(t, k))))
  pure def sizeOf(w: World, p: int): int =
    if (p < 3) norm(w.x.r) else if (p < 6) norm(w.x.v) else if (p == 6) w.env.mu
    else if (p < 10) ONE / 1000 else if (p == 10) w.env.req else w.ts[w.ts.length() - 1]
  pure def endOf(m: int, w: World): State =
    range(0, w.ts.length() - 1).foldl(w.x, (s, i) => rkStep(tableau(m), w.env, s, w.ts[i + 1] - w.ts[i]))

  pure def judgeCol(eps: int, ulp: int, w: World, end: State, dr: V3, dv: V3, gr: V3, gv: V3, grow: int): List[Obl] =
    pure val span = abs(w.ts[w.ts.length() - 1] - w.ts[0])
    pure val rate = imax(div(norm(w.x.v), norm(w.x.r)), div(norm(end.v), norm(end.r)))
    pure val k = ulps(ulp, eps, grow)
    [ closeV(1, gr, dr, mul(k, amax(dr) + mul(amax(dv), span)) + 10^18),
      closeV(2, gv, dv, mul(k, amax(dv) + mul(amax(dr), rate)) + 10^18) ]

  /// op 57: [method, env(5), x(6), param, d(6), n, t0 .. tn]
  pure def oblSensGrid(eps: int, l: List[int]): List[Obl] =
    pure val m = l[0] / ONE
    pure val n = l[19] / ONE
    pure val w = { env: envAt(l, 1), x: { r: v3(l, 6), v: v3(l, 9) }, ts: l.slice(20, 21 + n) }
    pure val p = l[12] / ONE
    pure val h = sizeOf(w, p) / 10^11
    pure val a = endOf(m, vary(w, p, h))
    pure val b = endOf(m, vary(w, p, 0 - h))
    pure val end = endOf(m, w)
    pure val k = div(ONE, 2 * h)
    pure val rate = imax(div(norm(w.x.v), norm(w.x.r)), div(norm(end.v), norm(end.r)))
    pure val g = mul(rate, abs(w.ts[n] - w.ts[0]))
    judgeCol(eps, 2048, w, end, scale(k, sub(a.r, b.r)), scale(k, sub(a.v, b.v)), v3(l, 13), v3(l, 16), ONE + 8 * g + 8 * sq(g))

  /// op 58: the controller chose the steps: the derivative is that of the exact flow, as far as the
  /// integration is accurate. [mu, dt, hint, x(6), param, factor, d(6), rel]
  pure def oblSensFlow(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val dt = l[1]
    pure val x = { r: v3(l, 3), v: v3(l, 6) }
    pure val sq0 = sqrtF(mu)
    pure val fl = flow(mu, sq0, x, dt, l[2])
    if (not(solved(fl))) [(9, ONE, 0)] else
    pure val p = l[9] / ONE
    pure val h = mu / 10^11
    pure val d: (V3, V3) =
      if (p < 6) column(mu, sq0, x, dt, fl.chi, p)
      else if (p == 6)
        pure val a = flow(mu + h, sqrtF(mu + h), x, dt, fl.chi)
        pure val b = flow(mu - h, sqrtF(mu - h), x, dt, fl.chi)
        pure val k = div(ONE, 2 * h)
        (scale(k, sub(a.s.r, b.s.r)), scale(k, sub(a.s.v, b.s.v)))
      else (scale(l[10], fl.s.v), scale(mul(l[10], 0 - div(mu, cube(fl.rr))), fl.s.r))
    pure val rate = imax(div(norm(x.v), norm(x.r)), div(norm(fl.s.v), fl.rr))
    pure val grow = ONE + 6 * mul(rate, abs(dt))
    pure val rel = mul(l[17] + 256 * eps, grow)
    [ closeV(1, v3(l, 11), d._1, mul(rel, amax(d._1) + div(amax(d._2), rate)) + 10^18),
      closeV(2, v3(l, 14), d._2, mul(rel, amax(d._2) + mul(amax(d._1), rate)) + 10^18) ]

  /// op 59: derivatives of one acceleration. [n, mu, J, Req, x(3), param, d(3)];
  /// param 0..2 the position, 6 mu, 7 the coefficient, 10 the reference radius
  pure def force(n: int, mu: int, j: int, req: int, x: V3): V3 =
    pure val r = norm(x)
    if (n == 1) scale(0 - div(mu, cube(r)), x) else zonal(n, mu, j, req, x, r)
  pure def oblGravSens(eps: int, l: List[int]): List[Obl] =
    pure val n = l[0] / ONE
    pure val x = v3(l, 4)
    pure val r = norm(x)
    pure val p = l[7] / ONE
    pure def f(d: int): V3 =
      if (p < 3) force(n, l[1], l[2], l[3], add(x, scale(d, ev(p))))
      else if (p == 6) force(n, l[1] + d, l[2], l[3], x)
      else if (p == 7) force(n, l[1], l[2] + d, l[3], x)
      else force(n, l[1], l[2], l[3] + d, x)
    pure val len0 = if (p < 3) r else if (p == 6) abs(l[1]) else if (p == 7) imax(abs(l[2]), ONE / 1000) else l[3]
    // exact in mu and in the coefficient, which enter linearly
    pure val h = if (p == 6 or p == 7) len0 else len0 / 10^8
    pure val g = scale(div(ONE, 2 * h), sub(f(h), f(0 - h)))
    pure val sc = if (n == 1) div(abs(l[1]), sq(r))
      else (n + 2) * (n + 2) * mul(mul(div(abs(l[1]), sq(r)), if (p == 7) imax(abs(l[2]), ONE / 1000) else abs(l[2])), powF(div(l[3], r), n))
    pure val nat = div((n + 3) * sc, len0)
    [ closeV(n, v3(l, 8), g, ulps(64, eps, nat) + nat / 10^12 + 10^12) ]
}
