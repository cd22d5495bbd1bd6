// -*- mode: Bluespec; -*-
/// Contracts of the classical orbital elements.
module c_elem {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"
  import c_flow.* from "./c_flow"

  type Coe = { p: int, e: int, i: int, raan: int, argp: int, f: int }
  pure def coeAt(l: List[int], k: int): Coe =
    { p: l[k], e: l[k + 1], i: l[k + 2], raan: l[k + 3], argp: l[k + 4], f: l[k + 5] }

  /// the state with the given elements (exact)
  pure def stateOf(mu: int, c: Coe): State =
    pure val cf = sincos(c.f)
    pure val co = sincos(c.raan)
    pure val cw = sincos(c.argp)
    pure val ci = sincos(c.i)
    // unit vectors of the perifocal frame
    pure val pv: V3 = (
      mul(co._2, cw._2) - mul(mul(co._1, cw._1), ci._2),
      mul(co._1, cw._2) + mul(mul(co._2, cw._1), ci._2),
      mul(cw._1, ci._1))
    pure val qv: V3 = (
      0 - mul(co._2, cw._1) - mul(mul(co._1, cw._2), ci._2),
      0 - mul(co._1, cw._1) + mul(mul(co._2, cw._2), ci._2),
      mul(cw._2, ci._1))
    pure val r = div(c.p, ONE + mul(c.e, cf._2))
    pure val k = sqrtF(div(mu, c.p))
    { r: lin(mul(r, cf._2), pv, mul(r, cf._1), qv),
      v: lin(0 - mul(k, cf._1), pv, mul(k, c.e + cf._2), qv) }

  pure def ranges(c: Coe, eps: int): List[Obl] =
    pure val slack = 16 * eps
    [ holds(1, c.p > 0 and c.e >= 0),
      holds(2, c.i >= 0 and c.i <= PI + slack),
      holds(3, c.raan >= 0 and c.raan <= TWOPI + slack),
      holds(4, c.argp >= 0 and c.argp <= TWOPI + slack),
      holds(5, c.f >= 0 and c.f <= TWOPI + slack) ]

  /// relative error of the elements of x, and of the state rebuilt from them
  type Cond = { ang: int, eV: int, rel: int }
  pure def cond(mu: int, x: State): Cond =
    pure val h = hvec(x)
    pure val hm = norm(h)
    pure val sini = div(isqrt(h._1 * h._1 + h._2 * h._2), hm)
    pure val e = norm(evec(mu, x))
    pure val eV = ONE + div(mul(norm(x.v), hm), mu)          // abs error of e / eps
    pure val ang = div(eV, e) + inv(sini)                    // abs error of the angles / eps
    pure val rp = mul(norm(x.r), div(mu, sq(hm)))            // r / p
    { ang: ang, eV: eV, rel: mul(ang + eV, ONE + mul(ONE + e, rp)) }

  /// [mu, r, v, p, e, i, raan, argp, f]
  pure def oblRv2coe(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val x = { r: v3(l, 1), v: v3(l, 4) }
    pure val c = coeAt(l, 7)
    pure val y = stateOf(mu, c)
    pure val k = cond(mu, x)
    pure val r = norm(x.r)
    pure val v = norm(x.v)
    pure val hm = norm(hvec(x))
    pure val vs = v + div(mu, hm)
    ranges(c, eps).concat([
      closeV(6, y.r, x.r, ulps(20, eps, mul(k.rel, r))),
      closeV(7, y.v, x.v, ulps(20, eps, mul(k.rel, vs))),
      close(8, mul(c.p, mu), sq(hm), ulps(20, eps, mul(mul(r, v), hm))),
      close(9, c.e, norm(evec(mu, x)), ulps(20, eps, k.eV)) ])

  /// every orbit that is not a straight line, circular and equatorial ones included: the elements
  /// that are defined for all of them, and none is undefined: [mu, r, v, p, e, i, raan, argp, f]
  pure def oblSize(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val x = { r: v3(l, 1), v: v3(l, 4) }
    pure val c = coeAt(l, 7)
    pure val h = hvec(x)
    pure val hm = norm(h)
    pure val hxy = isqrt(h._1 * h._1 + h._2 * h._2)
    pure val big = div(mul(norm(x.r), norm(x.v)), hm)
    pure val sc = sincos(c.i)
    pure val t = ulps(64, eps, big)
    // arccos has slope 1/sin(i), but no more than the root of the rounding error
    pure val tI = t + imin(mul(t, inv(imax(div(hxy, hm), 10^20))), sqrtF(imax(2 * t, 1)))
    ranges(c, eps).concat([
      close(6, mul(c.p, mu), sq(hm), ulps(20, eps, mul(mul(norm(x.r), norm(x.v)), hm))),
      close(7, c.e, norm(evec(mu, x)), ulps(20, eps, ONE + div(mul(norm(x.v), hm), mu))),
      close(8, sc._2, div(h._3, hm), t),
      close(9, sc._1, div(hxy, hm), tI) ])

  /// [mu, p, e, i, raan, argp, f, r, v]
  pure def oblCoe2rv(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val c = coeAt(l, 1)
    pure val y = stateOf(mu, c)
    pure val r = norm(y.r)
    pure val k = 10 * ONE + abs(c.f) + abs(c.raan) + abs(c.argp) + abs(c.i)
    pure val amp = ONE + mul(div(r, c.p), ONE + c.e)
    pure val vs = mul(sqrtF(div(mu, c.p)), ONE + c.e)
    [ closeV(1, v3(l, 7), y.r, ulps(4, eps, mul(k, mul(amp, r)))),
      closeV(2, v3(l, 10), y.v, ulps(4, eps, mul(k, vs))) ]

  /// there and back: [mu, r, v, r', v'] with (r', v') = coe2rv(rv2coe(r, v))
  pure def oblRound(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val x = { r: v3(l, 1), v: v3(l, 4) }
    pure val k = cond(mu, x)
    pure val vs = norm(x.v) + div(mu, norm(hvec(x)))
    [ closeV(1, v3(l, 7), x.r, ulps(20, eps, mul(k.rel, norm(x.r)))),
      closeV(2, v3(l, 10), x.v, ulps(20, eps, mul(k.rel, vs))) ]

  /// elements of one orbit at two times: only the true anomaly moves
  /// [mu, dt, hint, x0(6), coe0(6), coe1(6)]
  pure def oblCoast(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val x = { r: v3(l, 3), v: v3(l, 6) }
    pure val c0 = coeAt(l, 9)
    pure val c1 = coeAt(l, 15)
    pure val fl = flow(mu, sqrtF(mu), x, l[1], l[2])
    if (not(solved(fl))) [(9, ONE, 0)] else
    pure val b = budget(mu, x, l[1], fl, eps, 64)
    pure val k0 = cond(mu, x)
    pure val k1 = cond(mu, fl.s)
    // relative perturbation of the coasted state by rounding
    pure val d = div(b.onPos, fl.rr) + div(b.onVel, norm(fl.s.v)) + 20 * eps
    pure val angTol = mul(20 * eps, k0.ang) + mul(d, k1.ang) + 1000000
    pure val eTol = mul(20 * eps, k0.eV) + mul(d, k1.eV) + 1000000
    pure val pTol = mul(c0.p, 20 * eps + 4 * d) + 1000000
    [ close(1, c1.p, c0.p, pTol),
      close(2, c1.e, c0.e, eTol),
      close(3, c1.i, c0.i, angTol),
      (4, abs(wrapPi(c1.raan - c0.raan)), angTol),
      (5, abs(wrapPi(c1.argp - c0.argp)), angTol) ]

  /// turning the frame about the polar axis by delta shifts the node only
  /// [mu, delta, x(6), coe0(6), coe1(6)]
  pure def oblTurn(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val x = { r: v3(l, 2), v: v3(l, 5) }
    pure val c0 = coeAt(l, 8)
    pure val c1 = coeAt(l, 14)
    pure val k = cond(mu, x)
    pure val angTol = ulps(20, eps, k.ang)
    [ close(1, c1.p, c0.p, ulps(20, eps, mul(c0.p, k.eV))),
      close(2, c1.e, c0.e, ulps(20, eps, k.eV)),
      close(3, c1.i, c0.i, angTol),
      (4, abs(wrapPi(c1.raan - c0.raan - l[1])), angTol),
      (5, abs(wrapPi(c1.argp - c0.argp)), angTol),
      (6, abs(wrapPi(c1.f - c0.f)), angTol) ]

  // ---- the single-element functions ---------------------------------------
  /// [h(3), i]
  pure def oblIncl(eps: int, l: List[int]): List[Obl] =
    pure val h = v3(l, 0)
    pure val hm = norm(h)
    pure val hxy = isqrt(h._1 * h._1 + h._2 * h._2)
    pure val sc = sincos(l[3])
    // arccos has slope 1/sin(i)
    pure val t = ulps(64, eps, ONE)
    pure val tI = imax(t, mul(hm, 0) + ulps(64, eps, imin(inv(imax(div(hxy, hm), 10^20)), div(ONE, sqrtF(imax(eps, 1))))))
    [ holds(1, l[3] >= 0 and l[3] <= PI + 16 * eps),
      close(2, sc._2, div(h._3, hm), t),
      close(3, sc._1, div(hxy, hm), tI) ]

  /// [N(3), raan]
  pure def oblRaan(eps: int, l: List[int]): List[Obl] =
    pure val nm = isqrt(l[0] * l[0] + l[1] * l[1])
    pure val sc = sincos(l[3])
    [ holds(1, l[3] >= 0 and l[3] <= TWOPI + 16 * eps),
      close(2, sc._2, div(l[0], nm), ulps(64, eps, ONE)),
      close(3, sc._1, div(l[1], nm), ulps(64, eps, ONE)) ]

  /// [N(3), e(3), argp], N in the reference plane, e in the plane of the orbit
  pure def oblArgp(eps: int, l: List[int]): List[Obl] =
    pure val n = v3(l, 0)
    pure val e = v3(l, 3)
    pure val nm = mul(norm(n), norm(e))
    pure val sc = sincos(l[6])
    pure val s = div(norm(xprod(n, e)), nm)
    [ holds(1, l[6] >= 0 and l[6] <= TWOPI + 16 * eps),
      close(2, sc._2, div(dot(n, e), nm), ulps(64, eps, ONE)),
      close(3, sc._1, if (e._3 < 0) 0 - s else s, ulps(64, eps, ONE)) ]

  /// [r(3), e(3), f]: the unsigned angle between periapsis and position
  pure def oblTrueAnom(eps: int, l: List[int]): List[Obl] =
    pure val r = v3(l, 0)
    pure val e = v3(l, 3)
    pure val nm = mul(norm(r), norm(e))
    pure val sc = sincos(l[6])
    [ holds(1, l[6] >= 0 and l[6] <= TWOPI + 16 * eps),
      close(2, sc._2, div(dot(r, e), nm), ulps(64, eps, ONE)),
      close(3, abs(sc._1), div(norm(xprod(r, e)), nm), ulps(64, eps, ONE)) ]
}
