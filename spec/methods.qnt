// -*- mode: Bluespec; -*-
/// Explicit Runge-Kutta methods: published tableaus (40 decimals), the recurrence, the
/// embedded error estimate and the step-size law of the default controller.
module methods {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"
  import c_env.* from "./c_env"

  type Tableau = { a: List[List[int]], b: List[int], e: List[int], order: int }
  pure val EULER: Tableau = { order: 1,
   a: [],
   b: List(10000000000000000000000000000000000000000),
   e: [] }
  pure val MIDPOINT: Tableau = { order: 2,
   a: List(List(5000000000000000000000000000000000000000)),
   b: [0, 10000000000000000000000000000000000000000],
   e: [] }
  pure val HEUN: Tableau = { order: 2,
   a: List(List(10000000000000000000000000000000000000000)),
   b: [5000000000000000000000000000000000000000, 5000000000000000000000000000000000000000],
   e: [5000000000000000000000000000000000000000, -5000000000000000000000000000000000000000] }
  pure val BOSH3: Tableau = { order: 3,
   a: List(List(5000000000000000000000000000000000000000),
    [0, 7500000000000000000000000000000000000000],
    [2222222222222222222222222222222222222222, 3333333333333333333333333333333333333333, 4444444444444444444444444444444444444444]),
   b: [2222222222222222222222222222222222222222, 3333333333333333333333333333333333333333, 4444444444444444444444444444444444444444, 0],
   e: [-694444444444444444444444444444444444444, 833333333333333333333333333333333333333, 1111111111111111111111111111111111111111, -1250000000000000000000000000000000000000] }
  pure val DOPRI5: Tableau = { order: 5,
   a: List(List(2000000000000000000000000000000000000000),
    [750000000000000000000000000000000000000, 2250000000000000000000000000000000000000],
    [9777777777777777777777777777777777777778, -37333333333333333333333333333333333333333, 35555555555555555555555555555555555555556],
    [29525986892242036274958085657674135040390, -115957933241883859167809785093735711019662, 98228928516994360615759792714525224813291, -2908093278463648834019204389574759945130],
    [28462752525252525252525252525252525252525, -107575757575757575757575757575757575757576, 89064227177434724604535925290642271774347, 2784090909090909090909090909090909090909, -2735313036020583190394511149228130360206],
    [911458333333333333333333333333333333333, 0, 4492362982929020664869721473495058400719, 6510416666666666666666666666666666666667, -3223761792452830188679245283018867924528, 1309523809523809523809523809523809523810]),
   b: [911458333333333333333333333333333333333, 0, 4492362982929020664869721473495058400719, 6510416666666666666666666666666666666667, -3223761792452830188679245283018867924528, 1309523809523809523809523809523809523810, 0],
   e: [8217592592592592592592592592592592593, 0, -28351801936707597084955575521613257462, 246527777777777777777777777777777777778, -339091981132075471698113207547169811321, 279365079365079365079365079365079365079, -166666666666666666666666666666666666667] }
  pure val TSIT5: Tableau = { order: 5,
   a: List(List(1610000000000000000000000000000000000000),
    [-84806554923569885444268742502307746751, 3354806554923569885444268742502307746751],
    [28971530571054934321304325941929387649249, -63594484899750748431481599123838256259527, 43622954328695814110177273181908868610278],
    [53258648284392566044288779208405113178365, -117488835640628278777471703397857729618874, 74955393428898362083046047845643581556587, -924950663617552492565020793320719161135],
    [58614554429464200286592514869826478903943, -129209693178471092917061186817833593954178, 81593678985761586431804007945392534851819, -715849732814009972245305425258297386913, -282690503940683829090030572127122414672],
    [964607668180652295181673131651287633371, 100000000000000000000000000000000000000, 4798896504144995747752495322905965199130, 13790085741037418931922748218568727707565, -32900695154360806799010475857113638501157, 23247105240997739824153559183987657961091]),
   b: [964607668180652295181673131651287633371, 100000000000000000000000000000000000000, 4798896504144995747752495322905965199130, 13790085741037418931922748218568727707565, -32900695154360806799010475857113638501157, 23247105240997739824153559183987657961091, 0],
   e: [17800110522257714433785506075395347759, 8164344596567469032236360633546862402, -78808780102619960103147276725263042386, 1447110071732629075371651479726351167209, -5823571654525552250199376106520421794261, 4580821059291869466616365188325542974428, -151515151515151515151515151515151515152] }
  pure def tableau(m: int): Tableau =
    if (m == 0) EULER else if (m == 1) MIDPOINT else if (m == 2) HEUN else if (m == 3) BOSH3
    else if (m == 4) DOPRI5 else TSIT5

  /// all stages of a step: the slopes (velocity, acceleration)
  pure def stages(tb: Tableau, env: Env, s: State, h: int): List[State] =
    tb.a.foldl(List({ r: s.v, v: accel(env, s.r) }), (ks, row) =>
      pure val y = range(0, row.length()).foldl(s, (acc, i) =>
        pure val c = mul(h, row[i])
        { r: add(acc.r, scale(c, ks[i].r)), v: add(acc.v, scale(c, ks[i].v)) })
      ks.append({ r: y.v, v: accel(env, y.r) }))
  pure def combine(s: State, h: int, ks: List[State], b: List[int]): State =
    range(0, b.length()).foldl(s, (acc, i) =>
      pure val c = mul(h, b[i])
      { r: add(acc.r, scale(c, ks[i].r)), v: add(acc.v, scale(c, ks[i].v)) })
  pure def rkStep(tb: Tableau, env: Env, s: State, h: int): State =
    combine(s, h, stages(tb, env, s, h), tb.b)

  /// op 65: [method, env(5), x(6), y(6), n, t0 .. tn]
  pure def oblGrid(eps: int, l: List[int]): List[Obl] =
    pure val tb = tableau(l[0] / ONE)
    pure val env = envAt(l, 1)
    pure val x = { r: v3(l, 6), v: v3(l, 9) }
    pure val n = l[18] / ONE
    pure val z = range(0, n).foldl((x, 0, 0), (a, i) =>
      pure val h = l[20 + i] - l[19 + i]
      pure val y = rkStep(tb, env, a._1, h)
      // size of the summands, and growth of earlier errors
      pure val rate = div(norm(y.v) + norm(a._1.v), norm(y.r) + norm(a._1.r))
      (y, a._2 + mul(abs(h), norm(a._1.v) + norm(y.v)), a._3 + mul(abs(h), rate)))
    pure val grow = ONE + 8 * z._3 + 8 * sq(z._3)
    pure val k = mul(ulps(64 * (n + 1), eps, ONE), grow)
    pure val vs = imax(norm(x.v), norm(z._1.v))
    pure val acc = imax(norm(accel(env, x.r)), norm(accel(env, z._1.r)))
    [ closeV(1, v3(l, 12), z._1.r, mul(k, norm(x.r) + norm(z._1.r) + z._2)),
      closeV(2, v3(l, 15), z._1.v, mul(k, vs + mul(abs(l[19 + n] - l[19]), acc))) ]

  /// The default controller on one accepted step.
  /// op 67: [method, env(5), rtol, atol, h, x(6), y(6), hnext, kind]
  /// kind 0: the next step was clipped or followed a rejection (upper bound only),
  ///      1: the next step was chosen by the law, 2: there is no next step
  pure def oblControl(eps: int, l: List[int]): List[Obl] =
    pure val tb = tableau(l[0] / ONE)
    pure val env = envAt(l, 1)
    pure val rtol = l[6]
    pure val atol = l[7]
    pure val h = l[8]
    pure val x = { r: v3(l, 9), v: v3(l, 12) }
    pure val y = { r: v3(l, 15), v: v3(l, 18) }
    pure val ks = stages(tb, env, x, h)
    pure val zero = { r: (0, 0, 0), v: (0, 0, 0) }
    pure val er = combine(zero, h, ks, tb.e)
    pure def part(e: int, a: int, b: int): int = sq(div(e, atol + mul(rtol, imax(abs(a), abs(b)))))
    pure val sum = range(0, 3).foldl(0, (acc, i) =>
      acc + part(comp(er.r, i), comp(x.r, i), comp(y.r, i)) + part(comp(er.v, i), comp(x.v, i), comp(y.v, i)))
    // root mean square of the scaled error; rounding of the implementation's estimate
    pure val err = sqrtF(sum / 6)
    pure val noise = div(mul(64 * eps, imax(amax(x.r), amax(x.v))), atol)
    pure val q = div(l[21], mul(9 * ONE / 10, h))
    // (hnext / (0.9 h))^order * err = 1 unless clipped to [1, 10]
    pure val law = mul(if (tb.order == 5) mul(sq(sq(q)), q) else if (tb.order == 3) mul(sq(q), q) else sq(q), err)
    pure val slack = ONE / 1000 + 8 * mul(law, div(noise, imax(err, 10^20)))
    [ holds(1, err <= ONE + ONE / 1000 + noise),
      holds(2, l[22] == 2 * ONE or law <= ONE + slack or l[21] <= h + h / 10^6),
      holds(3, l[22] != ONE or abs(law - ONE) <= slack or abs(l[21] - 10 * h) <= h / 10^4 or abs(l[21] - h) <= h / 10^4) ]
}
