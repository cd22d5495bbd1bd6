// -*- mode: Bluespec; -*-
/// Contracts of the closed-form relations: integrals of motion, conic geometry, anomalies,
/// universal functions, Lagrange coefficients, Kepler solvers, rotation matrices.
module c_alg {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"

  /// the exact value of scalar function `kind` at (a, b, c, d, e, g), and the size of the
  /// terms it adds up (its rounding error is a few eps of that)
  pure def scalarFn(kind: int, a: int, b: int, c: int, d: int, e: int, g: int): (int, int) =
    if (kind == 0) { pure val v = mul(TWOPI, sqrtF(div(cube(a), b))) (v, v) }        // orb_period(a, mu)
    else if (kind == 2) { pure val t = 2 * inv(a)
      pure val w = div(sq(b), c)
      pure val al = t - w (inv(al), div(mul(inv(al), abs(t) + abs(w)), abs(al))) }      // semimajor_axis(r, v, mu)
    else if (kind == 3) { pure val v = div(sq(a), b) (v, v) }                          // semiparameter(h, mu)
    else if (kind == 4) { pure val v = div(TWOPI, a) (v, v) }                          // mean_motion(P)
    else if (kind == 5) { pure val den = ONE + mul(b, cosF(c))
      pure val v = div(a, den) (v, mul(abs(v), ONE + div(mul(b, ONE + abs(c)), abs(den)))) } // equ_of_orbit(p, e, f)
    else if (kind == 6) { pure val v = mul(d, a) + mul(e, b) + c
      (v, abs(mul(d, a)) + abs(mul(e, b)) + abs(c)) }                                   // equ_of_orb_uvi(U0, U1, U2, r0, s0)
    else if (kind == 7) { pure val v = div(a, ONE + b) (v, v) }                        // radius_periapsis(p, e)
    else if (kind == 8) { pure val v = div(a, ONE - b) (v, mul(abs(v), ONE + div(b, abs(ONE - b)))) } // radius_apoapsis
    else if (kind == 9) { pure val v = mul(a, ONE - sq(b)) (v, mul(abs(a), ONE + sq(b))) } // semipara_from_ae(a, e)
    else if (kind == 10) { pure val v = div(a, ONE - sq(b))
      (v, mul(abs(v), ONE + div(sq(b), abs(ONE - sq(b))))) }                             // a_from_pe(p, e)
    else if (kind == 11 or kind == 12) { pure val v = mul(sqrtF(div(c, abs(cube(a)))), b) (v, v) } // mean_anomaly_elps/hypb(a, dt, mu)
    else if (kind == 13) { pure val t = mul(mul(a, sqrtF(e)), d)
      (t + b - c, abs(t) + abs(b) + abs(c)) }                                            // generalized_anomaly(alpha, sigma, sigma0, dt, mu)
    else if (kind == 14) (a - mul(b, sinF(a)) - c, mul(ONE + b, abs(a)) + abs(c))        // kepler_equ_elps(E, e, M)
    else if (kind == 15) { pure val t = mul(b, sinhF(a))
      (t - a - c, mul(abs(t), ONE + abs(a)) + abs(a) + abs(c)) }                         // kepler_equ_hypb(H, e, N)
    else if (kind == 16) (ONE - mul(b, cosF(a)), ONE + mul(b, ONE + abs(a)))             // dE(E, e)
    else if (kind == 17) { pure val t = mul(b, coshF(a)) (t - ONE, mul(t, ONE + abs(a)) + ONE) } // dH(H, e)
    else if (kind == 19) { pure val v = ONE - div(a, b) (v, ONE + abs(div(a, b))) }     // lagrange_F(U2, r0) and _Gt(U2, r)
    else if (kind == 20) { pure val q = sqrtF(e)
      (div(mul(d, a) + mul(c, b), q), div(abs(mul(d, a)) + abs(mul(c, b)), q)) }         // lagrange_G(U1, U2, s0, r0, mu)
    else if (kind == 21) { pure val v = 0 - div(mul(sqrtF(d), a), mul(b, c)) (v, v) }   // lagrange_Ft(U1, r, r0, mu)
    else { pure val q = sqrtF(g)                                                         // C_func(chi, U2, U4, U5, dt, mu)
      (div(3 * d - mul(a, c), q) - mul(e, b), div(3 * abs(d) + abs(mul(a, c)), q) + abs(mul(e, b))) }

  /// [kind, a, b, c, d, e, g, out]
  pure def oblScalar(eps: int, l: List[int]): List[Obl] =
    if (l[0] == ONE) // a_from_period(P, mu): a^3 * 4 pi^2 = mu P^2
      pure val lhs = mul(mul(cube(l[7]), 4 * PI), PI)
      pure val rhs = mul(mul(l[2], l[1]), l[1])
      [ close(1, lhs, rhs, ulps(64, eps, rhs)), holds(2, l[7] > 0) ]
    else
      pure val v = scalarFn(l[0] / ONE, l[1], l[2], l[3], l[4], l[5], l[6])
      [ close(l[0] / ONE, l[7], v._1, ulps(32, eps, v._2)) ]

  /// [r, v, h]
  pure def oblH(eps: int, l: List[int]): List[Obl] =
    pure val r = v3(l, 0)
    pure val v = v3(l, 3)
    [ closeV(1, v3(l, 6), xprod(r, v), ulps(16, eps, mul(norm(r), norm(v)))) ]

  /// [mu, r, v, e]
  pure def oblE(eps: int, l: List[int]): List[Obl] =
    pure val x = { r: v3(l, 1), v: v3(l, 4) }
    pure val t = ONE + div(mul(mul(norm(x.r), norm(x.v)), norm(x.v)), l[0])
    [ closeV(1, v3(l, 7), evec(l[0], x), ulps(16, eps, t)) ]

  /// [mu, r, v, sigma]
  pure def oblSigma(eps: int, l: List[int]): List[Obl] =
    pure val q = sqrtF(l[0])
    [ close(1, l[7], div(dot(v3(l, 1), v3(l, 4)), q), ulps(16, eps, div(mul(norm(v3(l, 1)), norm(v3(l, 4))), q))) ]

  /// relations between integrals of one state
  /// [mu, r, v, a, h(3), e(3), p, n, P, rp, ra]  (elliptic)
  pure def oblEllipse(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val x = { r: v3(l, 1), v: v3(l, 4) }
    pure val a = l[7]
    pure val h = v3(l, 8)
    pure val e = v3(l, 11)
    pure val k = 2 * inv(norm(x.r)) + div(speed2(x), mu)
    pure val amp = mul(k, a) + ONE       // relative error of a, in eps
    pure val em = norm(e)
    pure val eAbs = ONE + div(mul(norm(x.v), norm(h)), mu)
    pure val c = 64
    pure val ampE = amp + div(mul(eAbs, 4 * ONE), ONE - imin(em, ONE - 10^20))
    [ close(1, l[14], mul(a, ONE - sq(em)), ulps(c, eps, mul(l[14], ampE))),
      close(2, mul(l[15], l[16]), TWOPI, ulps(c, eps, TWOPI)),
      close(3, l[17] + l[18], 2 * a, ulps(c, eps, mul(a, ampE))),
      close(4, mul(sq(l[15]), cube(a)), mu, ulps(c, eps, mu)),
      (5, abs(dot(e, h)), ulps(c, eps, mul(eAbs, norm(h)))),
      holds(6, l[17] <= norm(x.r) + mul(ulps(c, eps, ampE), norm(x.r))
               and norm(x.r) <= l[18] + mul(ulps(c, eps, ampE), l[18])) ]

  // ---- universal functions -------------------------------------------------
  pure def ufn(n: int, chi: int, alpha: int): (int, int) =
    pure val u = ufun(chi, alpha)
    pure val s = stumpff(u.z)
    pure val v =
      if (n == 0) u.u0 else if (n == 1) u.u1 else if (n == 2) u.u2 else if (n == 3) u.u3
      else if (n == 4) u4(chi, u.z, s.c2) else u5(chi, u.z, s.c3)
    // rounding scale: phase error eps*sqrt|z| on the oscillating part, plus the secular terms
    pure val x = abs(chi)
    pure val ph = ONE + sqrtF(abs(u.z))
    pure val secular =
      if (abs(u.z) <= ONE or n < 2) 0
      else if (n == 2) inv(abs(alpha))
      else if (n == 3) div(x, abs(alpha))
      else if (n == 4) div(sq(x), abs(alpha)) + inv(sq(alpha))
      else div(cube(x), abs(alpha)) + div(x, sq(alpha))
    pure val osc =
      if (u.z <= ONE) abs(v)
      else if (n == 0) ONE
      else if (n == 1) inv(sqrtF(alpha))
      else 0
    (v, mul(ph, osc + secular) + (if (n == 0) ONE else if (abs(u.z) <= ONE) abs(v) else 0))

  /// [n, chi, alpha, out]
  pure def oblU(eps: int, l: List[int]): List[Obl] =
    pure val v = ufn(l[0] / ONE, l[1], l[2])
    [ close(1 + l[0] / ONE, l[3], v._1, ulps(400, eps, v._2)) ]

  /// the identities that tie the six functions of one argument together
  /// [chi, alpha, U0..U5]
  pure def oblUIdent(eps: int, l: List[int]): List[Obl] =
    pure val chi = l[0]
    pure val al = l[1]
    pure val x = abs(chi)
    pure def sc(n: int): int = ufn(n, chi, al)._2
    pure def t(n: int): int = 4000 * mul(eps, sc(n)) + 10^6
    [ close(1, l[2] + mul(al, l[4]), ONE, t(0) + mul(abs(al), t(2))),
      close(2, l[3] + mul(al, l[5]), chi, t(1) + mul(abs(al), t(3)) + mul(eps, x) * 8),
      close(3, l[4] + mul(al, l[6]), sq(chi) / 2, t(2) + mul(abs(al), t(4)) + mul(eps, sq(chi)) * 8),
      close(4, l[5] + mul(al, l[7]), cube(chi) / 6, t(3) + mul(abs(al), t(5)) + mul(eps, abs(cube(chi))) * 8),
      close(5, sq(l[2]) + mul(al, sq(l[3])), ONE,
            2 * mul(abs(l[2]), t(0)) + 2 * mul(abs(al), mul(abs(l[3]), t(1))) + 8 * mul(eps, sq(l[2]) + ONE)) ]

  // ---- Lagrange coefficients ------------------------------------------------
  /// [mu, r0, s0, chi, alpha, F, G, Ft, Gt, r]: library values along one propagation
  pure def oblLagrange(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val r0 = l[1]
    pure val s0 = l[2]
    pure val q = sqrtF(mu)
    pure val u = ufun(l[3], l[4])
    pure val rr = keplerDF(u, r0, s0)
    pure val sumR = abs(mul(r0, u.u0)) + abs(mul(s0, u.u1)) + abs(u.u2)
    pure val k = mul(ONE + sqrtF(abs(u.z)), div(sumR, rr))
    pure val fTol = ulps(256, eps, mul(k, ONE + abs(div(u.u2, r0))))
    pure val gTol = ulps(256, eps, mul(k, div(abs(mul(r0, u.u1)) + abs(mul(s0, u.u2)) + (if (u.z > ONE) div(r0, sqrtF(l[4])) else 0), q)))
    pure val ftTol = ulps(256, eps, mul(k, div(mul(q, abs(u.u1) + (if (u.z > ONE) inv(sqrtF(l[4])) else 0)), mul(rr, r0))))
    pure val gtTol = ulps(256, eps, mul(k, ONE + abs(div(u.u2, rr))))
    [ close(1, l[5], ONE - div(u.u2, r0), fTol),
      close(2, l[6], div(mul(r0, u.u1) + mul(s0, u.u2), q), gTol),
      close(3, l[7], 0 - div(mul(q, u.u1), mul(rr, r0)), ftTol),
      close(4, l[8], ONE - div(u.u2, rr), gtTol),
      close(5, mul(l[5], l[8]) - mul(l[7], l[6]), ONE,
        mul(abs(l[8]), fTol) + mul(abs(l[5]), gtTol) + mul(abs(l[7]), gTol) + mul(abs(l[6]), ftTol)
        + 8 * mul(eps, ONE + abs(mul(l[5], l[8])))),
      close(6, l[9], rr, ulps(256, eps, mul(k, rr))) ]

  // ---- Kepler solvers --------------------------------------------------------
  /// [M, e, tol, E]
  pure def oblElps(eps: int, l: List[int]): List[Obl] =
    pure val res = abs(l[3] - mul(l[1], sinF(l[3])) - l[0])
    [ (1, res, 2 * l[2] + ulps(16, eps, 4 * ONE + abs(l[0]) + abs(l[3]))),
      holds(2, abs(l[3] - l[0]) <= l[1] + 2 * l[2] + ulps(64, eps, ONE + abs(l[0]))) ]
  /// [N, e, tol, H]
  pure def oblHypb(eps: int, l: List[int]): List[Obl] =
    pure val sh = mul(l[1], sinhF(l[3]))
    pure val res = abs(sh - l[3] - l[0])
    [ (1, res, l[2] + l[2] / 100 + ulps(16, eps, mul(abs(sh), 4 * ONE + abs(l[3])) + abs(l[0]) + abs(l[3]))) ]
  /// [dt, alpha, r0, s0, mu, tol, chi]
  pure def oblUni(eps: int, l: List[int]): List[Obl] =
    pure val u = ufun(l[6], l[1])
    pure val tau = mul(sqrtF(l[4]), l[0])
    pure val res = abs(keplerF(u, l[2], l[3], tau))
    pure val mag = abs(mul(l[2], u.u1)) + abs(mul(l[3], u.u2)) + abs(u.u3) + abs(tau)
    [ (1, res, l[5] + l[5] / 100 + ulps(64, eps, mul(mag, ONE + sqrtF(abs(u.z))))) ]
  /// [chi, alpha, r0, s0, dt, mu, out]
  pure def oblResidual(eps: int, l: List[int]): List[Obl] =
    pure val u = ufun(l[0], l[1])
    pure val tau = mul(sqrtF(l[5]), l[4])
    pure val mag = abs(mul(l[2], u.u1)) + abs(mul(l[3], u.u2)) + abs(u.u3) + abs(tau)
      + (if (u.z > ONE) div(l[2], sqrtF(l[1])) + div(abs(l[3]), l[1]) else 0)
    [ close(1, l[6], keplerF(u, l[2], l[3], tau), ulps(64, eps, mul(mag, ONE + sqrtF(abs(u.z))))) ]

  // ---- rotation matrices ------------------------------------------------------
  /// [axis, angle, m00..m22]: the active right-handed rotation about the axis
  pure def oblRot(eps: int, l: List[int]): List[Obl] =
    pure val k = l[0] / ONE
    pure val sc = sincos(l[1])
    pure val t = ulps(16, eps, 2 * ONE)
    pure def m(i: int, j: int): int = l[2 + 3 * i + j]
    // Rodrigues: R = c I + s [k]x + (1 - c) k k^T
    pure def want(i: int, j: int): int =
      if (i == j) (if (i == k) ONE else sc._2)
      else if (i == k or j == k) 0
      else if (((i - k + 3) % 3) == 1) 0 - sc._1 else sc._1
    pure def row(i: int): V3 = (m(i, 0), m(i, 1), m(i, 2))
    [ (1, range(0, 9).foldl(0, (acc, n) => imax(acc, abs(m(n / 3, n % 3) - want(n / 3, n % 3)))), t),
      close(2, dot(xprod(row(0), row(1)), row(2)), ONE, 4 * t),
      (3, abs(dot(row(0), row(1))) + abs(dot(row(1), row(2))) + abs(dot(row(2), row(0))), 4 * t),
      (4, abs(dot(row(0), row(0)) - ONE) + abs(dot(row(1), row(1)) - ONE) + abs(dot(row(2), row(2)) - ONE), 4 * t) ]
  /// composition of two turns about one axis: [axis, a, b, m(a)(9), m(b)(9), m(a+b)(9)]
  pure def oblRotSum(eps: int, l: List[int]): List[Obl] =
    pure def p(i: int, j: int): int = (l[3 + 3 * i] * l[12 + j] + l[4 + 3 * i] * l[15 + j] + l[5 + 3 * i] * l[18 + j]) / ONE
    [ (1, range(0, 9).foldl(0, (acc, n) => imax(acc, abs(p(n / 3, n % 3) - l[21 + n]))),
       ulps(16, eps, 4 * ONE + abs(l[1]) + abs(l[2]))) ]
}
