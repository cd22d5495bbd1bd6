// -*- mode: Bluespec; -*-
/// The contract of every stateless operation: which obligations an observed call creates.
module contract {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"
  import c_flow.* from "./c_flow"
  import c_elem.* from "./c_elem"
  import c_alg.* from "./c_alg"
  import c_stm.* from "./c_stm"
  import c_env.* from "./c_env"
  import methods.* from "./methods"
  import c_units.* from "./c_units"
  import c_sens.* from "./c_sens"
  import c_force.* from "./c_force"

  // ---- decoding of recorded events -------------------------------------------
  /// digits in base 10^82, every digit offset by half the base
  pure val BASE: int = 10^82
  pure val HALF: int = 5 * 10^81
  pure def unpack(packed: int): List[int] =
    pure val n = packed % BASE
    range(0, n).foldl((packed / BASE, []), (st, _) =>
      (st._1 / BASE, st._2.append(st._1 % BASE - HALF)))._2

  /// machine epsilon of the recorded call: binary64 or binary32
  pure def epsOf(f32: int): int = if (f32 == 0) ONE / 2^52 else ONE / 2^23

  /// the same quantity computed along two ways: [a, b, scale, relTol]
  pure def oblPair(eps: int, l: List[int]): List[Obl] = [ close(1, l[0], l[1], mul(l[2], l[3])) ]
  /// discrete facts: every pair (observed, documented) is equal
  pure def oblSame(l: List[int]): List[Obl] =
    range(0, l.length() / 2).foldl([], (acc, i) => acc.append(holds(i + 1, l[2 * i] == l[2 * i + 1])))

  /// two calls related by a change of units: [L, T, mu, dt, hint, r0, v0, r(3), v(3), R(3), V(3)]
  /// (R, V) is the observed answer to the problem in units 1/L, 1/T
  pure def oblUnits(eps: int, l: List[int]): List[Obl] =
    pure val len = l[0]
    pure val tim = l[1]
    pure val x = { r: v3(l, 5), v: v3(l, 8) }
    pure val fl = flow(l[2], sqrtF(l[2]), x, l[3], l[4])
    if (not(solved(fl))) [(9, ONE, 0)] else
    pure val b = budget(l[2], x, l[3], fl, eps, 64)
    pure val mu2 = div(mul(l[2], cube(len)), sq(tim))
    pure val x2 = { r: scale(len, x.r), v: scale(div(len, tim), x.v) }
    pure val fl2 = flow(mu2, sqrtF(mu2), x2, mul(l[3], tim), mul(l[4], sqrtF(len)))
    pure val b2 = budget(mu2, x2, mul(l[3], tim), fl2, eps, 64)
    [ closeV(1, v3(l, 17), scale(len, v3(l, 11)), b2.pos + mul(len, b.pos)),
      closeV(2, v3(l, 20), scale(div(len, tim), v3(l, 14)), b2.vel + mul(div(len, tim), b.vel)) ]
      .select(_ => timeResolved(fl, b) and timeResolved(fl2, b2))

  pure def judge(op: int, eps: int, l: List[int]): List[Obl] =
    if (op == 1) oblKepler(eps, l)
    else if (op == 6) oblUnits(eps, l)
    else if (op == 10) oblRv2coe(eps, l)
    else if (op == 11) oblCoe2rv(eps, l)
    else if (op == 12) oblCoast(eps, l)
    else if (op == 13) oblTurn(eps, l)
    else if (op == 14) oblRound(eps, l)
    else if (op == 15) oblIncl(eps, l)
    else if (op == 16) oblRaan(eps, l)
    else if (op == 17) oblArgp(eps, l)
    else if (op == 18) oblTrueAnom(eps, l)
    else if (op == 19) oblSize(eps, l)
    else if (op == 20) oblScalar(eps, l)
    else if (op == 21) oblH(eps, l)
    else if (op == 22) oblE(eps, l)
    else if (op == 23) oblSigma(eps, l)
    else if (op == 24) oblEllipse(eps, l)
    else if (op == 30) oblU(eps, l)
    else if (op == 31) oblUIdent(eps, l)
    else if (op == 32) oblLagrange(eps, l)
    else if (op == 40) oblElps(eps, l)
    else if (op == 41) oblHypb(eps, l)
    else if (op == 42) oblUni(eps, l)
    else if (op == 43) oblResidual(eps, l)
    else if (op == 44) oblChi(eps, l)
    else if (op == 50) oblStm(eps, l)
    else if (op == 51) oblChain(eps, l)
    else if (op == 52) oblTimeMu(eps, l)
    else if (op == 53) oblElpsGrad(eps, l)
    else if (op == 54) oblHypbGrad(eps, l)
    else if (op == 55) oblUGrad(eps, l)
    else if (op == 56) oblUniGrad(eps, l)
    else if (op == 57) oblSensGrid(eps, l)
    else if (op == 58) oblSensFlow(eps, l)
    else if (op == 59) oblGravSens(eps, l)
    else if (op == 60) oblGravity(eps, l)
    else if (op == 61) oblCowell(eps, l)
    else if (op == 62) oblZonal(eps, l)
    else if (op == 63) oblMethod(eps, l)
    else if (op == 64) oblRadius(eps, l)
    else if (op == 65) oblGrid(eps, l)
    else if (op == 66) oblForced(eps, l)
    else if (op == 67) oblControl(eps, l)
    else if (op == 68) oblForcedRow(eps, l)
    else if (op == 69) oblTimed(eps, l)
    else if (op == 80) oblRot(eps, l)
    else if (op == 81) oblRotSum(eps, l)
    else if (op == 85) oblPath(eps, l)
    else if (op == 86) oblLow(eps, l)
    else if (op == 87) oblNmax(eps, l)
    else if (op == 89) oblDescent(eps, l)
    else if (op == 90) oblPair(eps, l)
    else if (op == 91) oblScaled(l)
    else if (op == 92) oblSame(l)
    else if (op == 93) oblPairs(l)
    // 99: the call raised, hung, or answered with a non-finite number: no behaviour allows that
    else if (op == 99) [ (1, ONE, 0) ]
    else [ (98, ONE, 0) ]
}
