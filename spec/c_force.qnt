// -*- mode: Bluespec; -*-
/// Numerical propagation of dynamics supplied by the user: forces that depend on the time,
/// the velocity and arbitrary parameters, and events that depend on the time.
///   x'' = -mu x / |x|^3 + a + b t - drag v - spring x - 2 w x v - w x (w x x)
module c_force {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"
  import methods.* from "./methods"

  type Force = { mu: int, a: V3, b: V3, drag: int, spring: int, w: V3 }
  /// 12 numbers
  pure def forceAt(l: List[int], k: int): Force =
    { mu: l[k], a: v3(l, k + 1), b: v3(l, k + 4), drag: l[k + 7], spring: l[k + 8], w: v3(l, k + 9) }

  pure def push(f: Force, t: int, s: State): V3 =
    pure val g: V3 = if (f.mu == 0) (0, 0, 0) else scale(0 - div(f.mu, cube(norm(s.r))), s.r)
    pure val lin0 = add(add(f.a, scale(t, f.b)), sub(scale(0 - f.drag, s.v), scale(f.spring, s.r)))
    pure val spin = add(scale(2 * ONE, xprod(f.w, s.v)), xprod(f.w, xprod(f.w, s.r)))
    add(g, sub(lin0, spin))
  pure def slope(f: Force, t: int, s: State): State = { r: s.v, v: push(f, t, s) }

  /// node of a stage: the sum of its row
  pure def node(row: List[int]): int = row.foldl(0, (c, x) => c + x)

  /// one step of a Runge-Kutta method on a field that depends on the time
  pure def forcedStep(tb: Tableau, f: Force, t: int, s: State, h: int): State =
    pure val ks = tb.a.foldl(List(slope(f, t, s)), (ks, row) =>
      pure val y = range(0, row.length()).foldl(s, (acc, i) =>
        pure val c = mul(h, row[i])
        { r: add(acc.r, scale(c, ks[i].r)), v: add(acc.v, scale(c, ks[i].v)) })
      ks.append(slope(f, t + mul(h, node(row)), y)))
    combine(s, h, ks, tb.b)
  pure def forced(f: Force, s: State, t: int, n: int): State =
    range(0, n).foldl(s, (x, i) => forcedStep(TSIT5, f, (t * i) / n, x, (t * (i + 1)) / n - (t * i) / n))

  /// fastest rate at which the motion changes at a state
  pure def rateOf(f: Force, s: State): int =
    pure val g = if (f.mu == 0) 0 else sqrtF(div(f.mu, cube(norm(s.r))))
    g + f.drag + sqrtF(f.spring) + 2 * norm(f.w)
  pure def sizeAcc(f: Force, t: int, s: State): int =
    pure val r = norm(s.r)
    (if (f.mu == 0) 0 else div(f.mu, sq(r))) + norm(f.a) + mul(abs(t), norm(f.b)) + mul(f.drag, norm(s.v))
      + mul(f.spring, r) + mul(2 * norm(f.w), norm(s.v)) + mul(sq(norm(f.w)), r)

  /// op 66: the steps of a named method: [method, force(12), x(6), y(6), n, t0 .. tn]
  pure def oblForced(eps: int, l: List[int]): List[Obl] =
    pure val tb = tableau(l[0] / ONE)
    pure val f = forceAt(l, 1)
    pure val x = { r: v3(l, 13), v: v3(l, 16) }
    pure val n = l[25] / ONE
    pure val z = range(0, n).foldl((x, 0, 0), (st, i) =>
      pure val h = l[27 + i] - l[26 + i]
      pure val y = forcedStep(tb, f, l[26 + i], st._1, h)
      pure val rate = imax(rateOf(f, y), rateOf(f, st._1))
      (y, st._2 + mul(abs(h), norm(st._1.v) + norm(y.v)), st._3 + mul(abs(h), rate)))
    pure val y = z._1
    pure val span = abs(l[26 + n] - l[26])
    pure val k = mul(ulps(64 * (n + 1), eps, ONE), ONE + 8 * z._3 + 8 * sq(z._3))
    pure val rs = norm(x.r) + norm(y.r) + z._2
    pure val vs = norm(x.v) + norm(y.v) + mul(span, imax(sizeAcc(f, l[26], x), sizeAcc(f, l[26 + n], y)))
    [ closeV(1, v3(l, 19), y.r, mul(k, rs + mul(span, vs))), closeV(2, v3(l, 22), y.v, mul(k, vs)) ]

  /// op 68: a row of a solution whose steps the controller chose, against the specification's own
  /// integration in n steps: [force(12), t, x(6), y(6), tol, steps, n]
  pure def oblForcedRow(eps: int, l: List[int]): List[Obl] =
    pure val f = forceAt(l, 0)
    pure val t = l[12]
    pure val x = { r: v3(l, 13), v: v3(l, 16) }
    pure val n = l[27] / ONE
    pure val y = forced(f, x, t, n)
    pure val half = forced(f, x, t, n / 2)
    pure val rate = imax(rateOf(f, x), rateOf(f, y))
    pure val g = mul(rate, abs(t))
    pure val loc = mul(l[25] + 20 * eps, 4 * ONE + 6 * g) * (l[26] / ONE + 4)
    pure val rs = norm(x.r) + norm(y.r) + mul(abs(t), norm(x.v) + norm(y.v))
    pure val vs = norm(x.v) + norm(y.v) + mul(abs(t), imax(sizeAcc(f, 0, x), sizeAcc(f, t, y)))
    // the step-doubling difference bounds the error of the oracle
    [ closeV(1, v3(l, 19), y.r, mul(loc, rs) + dist(y.r, half.r)),
      closeV(2, v3(l, 22), y.v, mul(loc, vs) + dist(y.v, half.v)) ]

  /// op 69: an event at a prescribed time: [t*, t1, located, fired, last time, last time before, tol]
  /// fired exactly when the time lies in the span; the solution then ends at it, or, when the
  /// event is not located, at the end of the step in which it lies
  pure def oblTimed(eps: int, l: List[int]): List[Obl] =
    pure val inside = l[0] < l[1]
    pure val tol = l[6] + 8 * mul(eps, l[1])
    [ holds(1, (l[3] == ONE) == inside),
      holds(2, if (not(inside)) abs(l[4] - l[1]) <= tol
               else if (l[2] == ONE) abs(l[4] - l[0]) <= tol
               else l[4] >= l[0] - tol and l[5] <= l[0] + tol) ]

  // ---- sanity (quint test) ----
  run forcedTest = {
    // a thrust that grows linearly: cubic motion, exactly integrated by every method of order 3 or more
    pure val f = { mu: 0, a: (ONE, 0, 0), b: (0, 6 * ONE, 0), drag: 0, spring: 0, w: (0, 0, 0) }
    pure val y = forced(f, { r: (0, 0, 0), v: (0, 0, ONE) }, 2 * ONE, 3)
    // seen from a rotating frame a free body moves on a straight line
    pure val q = { mu: 0, a: (0, 0, 0), b: (0, 0, 0), drag: 0, spring: 0, w: (0, 0, ONE) }
    pure val z = forced(q, { r: (ONE, 0, 0), v: (0, 0 - ONE, 0) }, ONE, 64)
    pure val sc = sincos(ONE)
    // a damped oscillator at critical damping: x = (1 + t) exp(-t)
    pure val d = { mu: 0, a: (0, 0, 0), b: (0, 0, 0), drag: 2 * ONE, spring: ONE, w: (0, 0, 0) }
    pure val o = forced(d, { r: (ONE, 0, 0), v: (0, 0, 0) }, ONE, 64)
    all { assert(dist(y.r, (2 * ONE, 8 * ONE, 2 * ONE)) < 10^4),
          assert(dist(z.r, (sc._2, 0 - sc._1, 0)) < ONE / 10^9),
          assert(abs(o.r._1 - mul(2 * ONE, coshF(ONE) - sinhF(ONE))) < ONE / 10^9) }
  }
}
