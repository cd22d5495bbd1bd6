// -*- mode: Bluespec; -*-
/// Contracts of derivatives: the state transition matrix and automatic differentiation.
/// The oracle never uses the analytic formulas of the code: it is the central difference,
/// at step 1e-11 on 40 decimals, of the exact flow.
module c_stm {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"
  import c_flow.* from "./c_flow"

  pure def bump(x: State, i: int, d: int): State =
    if (i < 3) { r: add(x.r, scale(d, ev(i))), v: x.v }
    else { r: x.r, v: add(x.v, scale(d, ev(i - 3))) }

  /// column i of the STM: (dr, dv) / d x0_i. Steps are relative to the size of x0.
  pure def column(mu: int, sqmu: int, x: State, dt: int, chi: int, i: int): (V3, V3) =
    pure val h = (if (i < 3) norm(x.r) else norm(x.v)) / 10^11
    pure val p = flow(mu, sqmu, bump(x, i, h), dt, chi)
    pure val m = flow(mu, sqmu, bump(x, i, 0 - h), dt, chi)
    pure val k = div(ONE, 2 * h)
    (scale(k, sub(p.s.r, m.s.r)), scale(k, sub(p.s.v, m.s.v)))

  /// per-block tolerance: entries of one block share units; scale = largest entry of the
  /// block plus the natural size of its summands
  type Blocks = { rr: int, rv: int, vr: int, vv: int }

  /// (dR, dV): by how much the recorded end state is off the orbit.
  /// First-order rounding analysis of the closed form of the matrix: errors of chi and alpha,
  /// through the universal functions, the Lagrange coefficients and C, into the blocks.
  pure def stmTol(mu: int, x: State, fl: Flow, eps: int, dR: int, dV: int): Blocks =
    pure val q = fl.sqmu
    pure val r0 = fl.r0
    pure val r1 = fl.rr
    pure val v0 = norm(x.v)
    pure val v1 = norm(fl.s.v)
    pure val dv = norm(sub(fl.s.v, x.v))
    pure val vv = v0 + v1
    pure val k = 6 * eps
    pure val chi = abs(fl.chi)
    pure val z = fl.u.z
    pure val s = stumpff(z)
    pure val kk = 2 * inv(r0) + div(sq(v0), mu)
    // errors of alpha and of chi = alpha sqrt(mu) dt + sigma - sigma0
    pure val dal = mul(k, kk)
    pure val kvv = mul(k, vv) + dV
    pure val rk = k + div(dR, r1)
    pure val dchi = div(mul(r1, dV) + mul(v1, dR), q) + mul(dal, abs(fl.tau)) + mul(k, chi + abs(mul(fl.alpha, fl.tau)) + div(mul(r0, v0) + mul(r1, v1), q))
    pure val u1 = abs(fl.u.u1)
    pure val u2 = abs(fl.u.u2)
    pure val u3 = abs(fl.u.u3)
    pure val u4_ = abs(u4(fl.chi, z, s.c2))
    pure val u5_ = abs(u5(fl.chi, z, s.c3))
    // sizes of the numbers from which each universal function is computed
    pure val m1 = if (fl.alpha > 0 and z > ONE) inv(sqrtF(fl.alpha)) else chi
    pure val big = z < 0 - ONE
    pure val m2 = if (big) u2 else sq(m1)
    pure val m3 = if (big) u3 else mul(chi, sq(m1))
    pure val m4 = if (big) u4_ else mul(sq(chi), sq(m1))
    pure val m5 = if (big) u5_ else mul(cube(chi), sq(m1))
    // d U_n / d alpha = -(chi U_{n+1} - n U_{n+2}) / 2
    pure val eU1 = mul(abs(fl.u.u0), dchi) + mul(mul(chi, u2) + u3, dal) + mul(k, if (big) u1 else m1)
    pure val eU2 = mul(u1, dchi) + mul(mul(chi, u3) + 2 * u4_, dal) + mul(k, m2)
    pure val eU4 = mul(u3, dchi) + mul(mul(chi, u5_) + mul(sq(chi), u4_), dal) + mul(k, m4)
    pure val eU5 = mul(u4_, dchi) + mul(mul(chi, mul(chi, u4_)) + mul(sq(chi), u5_), dal) + mul(k, m5)
    pure val cAbs = div(3 * u5_ + mul(chi, u4_) + mul(abs(fl.tau), u2), q)
    pure val eC = div(3 * eU5 + mul(chi, eU4) + mul(u4_, dchi) + mul(abs(fl.tau), eU2), q) + mul(k, cAbs)
    pure val eF = div(eU2, r0) + mul(k, ONE + div(u2, r0))
    pure val eG = div(mul(r0, eU1) + mul(abs(fl.s0), eU2), q) + mul(k, div(mul(r0, u1) + mul(div(mul(r0, v0), q), u2), q))
    pure val eFt = mul(div(q, mul(r0, r1)), eU1) + mul(k, abs(fl.ft))
    pure val eGt = div(eU2, r1) + mul(k, ONE + div(u2, r1))
    pure val r1r0 = div(r1, r0)
    pure val w = div(2 * mul(r1, mul(v1, dv)), mu)
    pure val wk = div(2 * mul(r1, mul(v1, kvv) + mul(dv, dV + mul(rk, v1))), mu)
    pure val f = ONE + abs(fl.f)
    pure val drr = mul(eF, ONE + r1r0) + mul(eC, div(v1, sq(r0)))
      + div(mul(r1, mul(dv, kvv + mul(rk, dv))), mu) + mul(mul(rk, f), ONE + r1r0) + mul(div(cAbs, sq(r0)), mul(k, v1) + dV)
    pure val drv = eG + mul(div(r0, mu), mul(eF, mul(dist(fl.s.r, x.r), v0) + mul(dv, r0)))
      + mul(div(u2, mu), mul(mul(k, r0 + r1) + dR, v0) + mul(kvv, r0)) + mul(eC, div(mul(v0, v1), mu))
      + mul(k, abs(fl.g)) + mul(cAbs, div(mul(v0, mul(k, v1) + dV), mu))
    pure val dvr = div(kvv, r0) + div(kvv + mul(rk, dv), r1) + mul(eFt, 2 * ONE + w) + mul(abs(fl.ft), rk + wk)
      + mul(div(div(mu, sq(r1)), sq(r0)), eC + mul(rk, cAbs))
    pure val dvv = div(mul(r0, mul(dv, kvv)), mu) + div(mul(eF, r0), r1) + mul(rk, div(mul(f, r0), r1))
      + mul(eC + mul(rk, cAbs), div(v0, sq(r1))) + eGt + mul(rk, div(u2, r1))
    { rr: drr, rv: drv, vr: dvr, vv: dvv }

  /// [mu, dt, hint, x0(6), J row-major (36), timeTol]
  /// clauses 1..4: the four blocks; 5: the matrix is symplectic
  pure def oblStm(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val dt = l[1]
    pure val x = { r: v3(l, 3), v: v3(l, 6) }
    pure val sq0 = sqrtF(mu)
    pure val fl = flow(mu, sq0, x, dt, l[2])
    if (not(solved(fl))) [(9, ONE, 0)] else
    pure def j(a: int, b: int): int = l[9 + 6 * a + b]
    pure val cols = [0, 1, 2, 3, 4, 5].foldl([], (acc, i) => acc.append(column(mu, sq0, x, dt, fl.chi, i)))
    pure def e(a: int, b: int): int = if (a < 3) comp(cols[b]._1, a) else comp(cols[b]._2, a - 3)
    pure def blockMax(a0: int, b0: int): int =
      range(0, 9).foldl(0, (acc, n) => imax(acc, abs(e(a0 + n / 3, b0 + n % 3))))
    // the recorded end state was computed in double precision, so it may be early or late by
    // the rounding of that computation (plus l[45]): it is then a state of the same orbit at a
    // slightly different time
    pure val bd = budget(mu, x, dt, fl, ONE / 2^52, 4)
    pure val tt = stmTol(mu, x, fl, eps, bd.onPos, bd.onVel)
    pure val time = l[45] + bd.time - div((TOL_UNI * 11) / 10, fl.sqmu)
    pure val gr = div(mu, cube(fl.rr))
    pure val rate = div(norm(fl.s.v), fl.rr)
    pure val brr = blockMax(0, 0)
    pure val brv = blockMax(0, 3)
    pure val bvr = blockMax(3, 0)
    pure val bvv = blockMax(3, 3)
    pure val trr = tt.rr + 4 * mul(time, bvr + mul(rate, brr))
    pure val trv = tt.rv + 4 * mul(time, bvv + mul(rate, brv))
    pure val tvr = tt.vr + 4 * mul(time, mul(gr, brr) + mul(rate, bvr))
    pure val tvv = tt.vv + 4 * mul(time, mul(gr, brv) + mul(rate, bvv))
    pure def errB(a0: int, b0: int): int =
      range(0, 9).foldl(0, (acc, n) =>
        pure val a = a0 + n / 3
        pure val b = b0 + n % 3
        imax(acc, abs(j(a, b) - e(a, b))))
    // symplectic: J^T W J = W; only the recorded matrix is used
    pure def sympl(p: int, q: int): int =
      range(0, 3).foldl(0, (acc, n) =>
        acc + (j(n, p) * j(n + 3, q) - j(n + 3, p) * j(n, q)) / ONE)
    pure def w(p: int, q: int): int = if (q == p + 3) ONE else if (p == q + 3) 0 - ONE else 0
    pure def sTol(p: int, q: int): int =
      pure val tp = if (p < 3) trr else trv
      pure val bp = if (p < 3) tvr else tvv
      pure val tq = if (q < 3) trr else trv
      pure val bq = if (q < 3) tvr else tvv
      pure val mp = blockMax(0, if (p < 3) 0 else 3)
      pure val np = blockMax(3, if (p < 3) 0 else 3)
      pure val mq = blockMax(0, if (q < 3) 0 else 3)
      pure val nq = blockMax(3, if (q < 3) 0 else 3)
      3 * (mul(tp, nq) + mul(bp, mq) + mul(mp, bq) + mul(np, tq))
    pure val symp = [0, 1, 2].foldl((0, ONE), (acc, p) => [3, 4, 5].foldl(acc, (ac, q) =>
      pure val er = abs(sympl(p, q) - w(p, q))
      pure val tol9 = sTol(p, q) + 10^6
      if (er * ac._2 > ac._1 * tol9) (er, tol9) else ac))
    [ (1, errB(0, 0), trr + 10^20), (2, errB(0, 3), trv + 10^20), (3, errB(3, 0), tvr + 10^20), (4, errB(3, 3), tvv + 10^20),
      (5, symp._1, symp._2) ]

  /// chain rule along a history: J(2<-0) = J(2<-1) J(1<-0)
  /// [J20(36), J21(36), J10(36), relTol, r, v, R^2 V / mu]: r and v are sizes of the states. Their
  /// rounding alone moves the velocity-position block by v / r (a difference of velocities over a
  /// radius) and, through the anomaly found from r.v, the position-velocity block by R^2 V / mu
  pure def oblChain(eps: int, l: List[int]): List[Obl] =
    pure def a(i: int, j: int): int = l[6 * i + j]
    pure def b(i: int, j: int): int = l[36 + 6 * i + j]
    pure def c(i: int, j: int): int = l[72 + 6 * i + j]
    pure val w = [0, 1, 2, 3].foldl((0, ONE), (acc, bl) =>
      pure val i0 = if (bl < 2) 0 else 3
      pure val j0 = if (bl % 2 == 0) 0 else 3
      pure val st = range(0, 9).foldl((0, 0), (s, n) =>
        pure val i = i0 + n / 3
        pure val j = j0 + n % 3
        pure val p = range(0, 6).foldl((0, 0), (t, m) =>
          pure val x = mul(b(i, m), c(m, j)) (t._1 + x, t._2 + abs(x)))
        (imax(s._1, abs(a(i, j) - p._1)), imax(s._2, p._2 + abs(a(i, j)))))
      pure val floor = if (i0 == 3 and j0 == 0) 256 * mul(eps, div(l[110], l[109])) else if (i0 == 0 and j0 == 3) 64 * mul(eps, l[111]) else 0
      pure val tol9 = mul(l[108], st._2) + floor + 10^20
      if (st._1 * acc._2 > acc._1 * tol9) (st._1, tol9) else acc)
    [ (1, w._1, w._2) ]

  /// derivative of the propagated state with respect to time and mu
  /// [mu, dt, hint, x0(6), dxdt(6), dxdmu(6)]
  pure def oblTimeMu(eps: int, l: List[int]): List[Obl] =
    pure val mu = l[0]
    pure val dt = l[1]
    pure val x = { r: v3(l, 3), v: v3(l, 6) }
    pure val sq0 = sqrtF(mu)
    pure val fl = flow(mu, sq0, x, dt, l[2])
    if (not(solved(fl))) [(9, ONE, 0)] else
    pure val b = budget(mu, x, dt, fl, eps, 256)
    pure val g = div(mu, cube(fl.rr))
    pure val acc = (0 - mul(g, fl.s.r._1), 0 - mul(g, fl.s.r._2), 0 - mul(g, fl.s.r._3))
    pure val h = mu / 10^11
    pure val p = flow(mu + h, sqrtF(mu + h), x, dt, fl.chi)
    pure val m = flow(mu - h, sqrtF(mu - h), x, dt, fl.chi)
    pure val k = div(ONE, 2 * h)
    pure val dr = scale(k, sub(p.s.r, m.s.r))
    pure val dv = scale(k, sub(p.s.v, m.s.v))
    pure val vTol = 4 * b.vel + mul(4 * mul(b.time, norm(fl.s.v)), div(norm(fl.s.v), fl.rr))
    pure val aTol = div(4 * mul(norm(acc), b.pos), fl.rr) + mul(g, 4 * b.pos) + mul(4 * eps, norm(acc))
    // d/dmu: sensitivity to a time error is the time derivative of the sensitivity
    pure val muRel = imax(amax(dr), div(mul(fl.r0, ONE), mu))
    pure val muRelV = imax(amax(dv), div(norm(fl.s.v), mu))
    pure val amp2 = mul(mul(256 * eps, b.amp), div(abs(mul(fl.r0, fl.u.u0)) + abs(mul(fl.s0, fl.u.u1)) + abs(fl.u.u2), fl.rr))
    pure val drTol = mul(amp2, muRel + div(mul(abs(dt), v3n(x)), mu)) + 8 * mul(b.time, amax(dv)) + div(8 * mul(b.time, norm(fl.s.v)), mu)
    pure val dvTol = mul(amp2, muRelV + div(mul(abs(dt), norm(acc)), mu) + mul(g, muRel)) + 8 * mul(b.time, mul(g, amax(dr))) + div(8 * mul(b.time, norm(acc)), mu)
    [ closeV(1, v3(l, 9), fl.s.v, vTol),
      closeV(2, v3(l, 12), acc, aTol),
      closeV(3, v3(l, 15), dr, drTol),
      closeV(4, v3(l, 18), dv, dvTol) ].select(_ => timeResolved(fl, b))
  pure def v3n(x: State): int = norm(x.v)

  /// implicit derivatives of the scalar solvers
  /// [M, e, E, dE/dM, dE/de]: E - e sin E = M
  pure def oblElpsGrad(eps: int, l: List[int]): List[Obl] =
    pure val sc = sincos(l[2])
    pure val d = ONE - mul(l[1], sc._2)
    // E is only good to tol, so allow its effect on the slope
    pure val slack = 8 * eps + ONE / 300000
    pure val k = inv(sq(d))
    [ close(1, l[3], inv(d), mul(slack, k + mul(mul(l[1], k), inv(d)))),
      close(2, l[4], div(sc._1, d), mul(slack, k + mul(mul(l[1], k), inv(d)))) ]
  /// [N, e, H, dH/dN, dH/de]: e sinh H - H = N
  pure def oblHypbGrad(eps: int, l: List[int]): List[Obl] =
    pure val ch = coshF(l[2])
    pure val sh = sinhF(l[2])
    pure val d = mul(l[1], ch) - ONE
    pure val slack = div(8 * mul(eps, mul(l[1], ch) + abs(l[0])) + ONE / 300000, d)
    pure val rel = mul(slack, ONE + div(mul(l[1], abs(sh)), d)) + 64 * mul(eps, ONE + abs(l[2]))
    [ close(1, l[3], inv(d), mul(rel, inv(d))),
      close(2, l[4], 0 - div(sh, d), mul(rel, div(abs(sh) + ch, d))) ]

  /// derivatives of the universal functions: [n, chi, alpha, dU/dchi, dU/dalpha]
  pure def uN(n: int, c: int, a: int): int =
    pure val u = ufun(c, a)
    if (n == 0) u.u0 else if (n == 1) u.u1 else if (n == 2) u.u2 else if (n == 3) u.u3
    else pure val s = stumpff(u.z) if (n == 4) u4(c, u.z, s.c2) else u5(c, u.z, s.c3)
  /// dU_n / dalpha by a central difference of the exact function
  pure def dUda(n: int, chi: int, al: int): int =
    pure val ha = div(ONE, imax(sq(chi), ONE / 10000)) / 10^11
    div(uN(n, chi, al + ha) - uN(n, chi, al - ha), 2 * ha)
  pure def oblUGrad(eps: int, l: List[int]): List[Obl] =
    pure val n = l[0] / ONE
    pure val chi = l[1]
    pure val al = l[2]
    pure val h = imax(abs(chi), ONE / 1000) / 10^11
    pure val x2 = imax(sq(chi), ONE / 10000)
    pure val dc = div(uN(n, chi + h, al) - uN(n, chi - h, al), 2 * h)
    pure val da = dUda(n, chi, al)
    pure val x = abs(chi)
    // sizes of the exact summands; for |z| > 1 the closed forms are well conditioned up to z
    pure val b = 0 - abs(al)
    pure val mc = if (n == 0) mul(abs(al), uN(1, x, b)) + ONE / 10^6 else uN(n - 1, x, b)
    pure val ma = mul(x2, uN(n, x, b))
    [ close(1, l[3], dc, ulps(1000, eps, mc) + 10^20),
      close(2, l[4], da, ulps(1000, eps, ma) + 10^20) ]

  /// implicit derivatives of the universal solver
  /// [dt, alpha, r0, s0, mu, chi, dchi/d(dt, alpha, r0, s0, mu)]: r0 U1 + s0 U2 + U3 = sqrt(mu) dt
  pure def oblUniGrad(eps: int, l: List[int]): List[Obl] =
    pure val dt = l[0]
    pure val al = l[1]
    pure val r0 = l[2]
    pure val s0 = l[3]
    pure val q = sqrtF(l[4])
    pure val chi = l[5]
    pure val u = ufun(chi, al)
    pure val r = keplerDF(u, r0, s0)
    pure val rd = mul(s0, u.u0) + mul(ONE - mul(al, r0), u.u1)
    // the anomaly itself is only good to the stopping tolerance and rounding
    pure val k = 2 * inv(r0) + abs(al)
    pure val amp = amplify(chi, al, k)
    pure val x = abs(chi)
    pure val b = 0 - abs(al)
    pure val big = if (mul(abs(al), sq(chi)) < ONE or al < 0) (mul(r0, uN(0, x, b)) + mul(abs(s0), uN(1, x, b)) + uN(2, x, b))
                   else r0 + div(abs(s0), sqrtF(al)) + inv(al)
    pure val relR = div(64 * mul(mul(eps, amp), big), r)
    pure val resid = TOL_UNI + 64 * mul(mul(eps, amp), mul(big, x) + mul(q, abs(dt)))
    pure val dchi = div(resid, r)
    pure val rel = relR + div(mul(abs(rd) + mul(abs(al), x) / 10^3, dchi), r) + 256 * eps
    pure def d(num: int, numSize: int, numRate: int): (int, int) =
      pure val g = div(num, r)
      (g, mul(abs(g), rel) + div(mul(numSize, 64 * mul(eps, amp)) + mul(abs(numRate), dchi), r) + 10^20)
    pure val w = 0 - (mul(r0, dUda(1, chi, al)) + mul(s0, dUda(2, chi, al)) + dUda(3, chi, al))
    pure val wSize = mul(mul(x, x), mul(big, x))
    pure val wRate = mul(mul(x, x), big)
    pure val a = d(q, q, 0)
    pure val bb = d(w, wSize, wRate)
    pure val c = d(0 - u.u1, abs(u.u1) + x / 10^3, u.u0)
    pure val e = d(0 - u.u2, abs(u.u2) + sq(x) / 10^3, u.u1)
    pure val m = d(div(dt, 2 * q), abs(div(dt, 2 * q)), 0)
    [ close(1, l[6], a._1, a._2), close(2, l[7], bb._1, bb._2), close(3, l[8], c._1, c._2),
      close(4, l[9], e._1, e._2), close(5, l[10], m._1, m._2) ].select(_ => rel * 10 < ONE)
}
