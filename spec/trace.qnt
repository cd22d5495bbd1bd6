// -*- mode: Bluespec; -*-
/// Trace validation: the state machine that consumes the recorded calls of the real code,
/// one per transition, carries the abstract state (the exact orbit of the current mission,
/// the open Cowell solution, the memory of earlier answers) and collects every obligation
/// that is not met. The verdict is total: `bad` names the event and the clause.
module trace {
  import fixed.* from "./fixed"
  import vec3.* from "./vec3"
  import twobody.* from "./twobody"
  import obl.* from "./obl"
  import c_flow.* from "./c_flow"
  import c_stm.* from "./c_stm"
  import c_env.* from "./c_env"
  import protocol.* from "./protocol"
  import loop_rules.* from "./loop_rules"
  import contract.* from "./contract"

  /// the recorded calls: data.qnt is rewritten for every validation run
  import data.* from "./data"

  // ---- abstract state ----------------------------------------------------------
  /// a mission: where the body really is after all hops so far, and how far the
  /// implementation may have drifted from it by admissible rounding and timing errors
  type Mission = { mu: int, sqmu: int, x0: State, x: State, elapsed: int, dr: int, dv: int,
    hErr: int, eErr: int, resolved: bool }
  pure val noMission: Mission = { mu: ONE, sqmu: ONE, x0: { r: (0, 0, 0), v: (0, 0, 0) },
    x: { r: (0, 0, 0), v: (0, 0, 0) }, elapsed: 0, dr: 0, dv: 0, hErr: 0, eErr: 0, resolved: false }

  var l: int
  var op: int
  var mission: Mission
  var proto: Proto
  /// a solve watched through growing iteration caps: [solver, its arguments, tol]
  var solve: (Watch, List[int])
  /// memory of earlier answers
  var memo: int -> int
  /// violated obligations: (event index, op, clause, err, tol)
  var bad: List[(int, int, int, int, int)]
  /// worst err/tol per (op, clause): in millionths, with the event that attained it
  var worst: (int, int) -> (int, int)
  /// how many obligations were discharged
  var count: int

  action init = all {
    l' = 0, op' = 0, mission' = noMission, proto' = { ...opened(0, 0, 0, 0, 0, false), open: false },
    solve' = (watched(0), []), memo' = Map(), bad' = [], worst' = Map(), count' = 0 }

  pure def ratio(o: Obl): int =
    if (o._3 <= 0) (if (o._2 == 0) 0 else 10^9) else imin(10^9, (o._2 * 10^6) / o._3)

  /// everything one recorded event does to the abstract state
  type After = { op: int, mission: Mission, proto: Proto, solve: (Watch, List[int]), memo: int -> int,
                 bad: List[(int, int, int, int, int)], worst: (int, int) -> (int, int), count: int }

  // ---- missions ---------------------------------------------------------------------
  /// op 2, START: [mu, x0(6)]
  pure def start(f: List[int]): Mission =
    pure val x = { r: v3(f, 1), v: v3(f, 4) }
    { mu: f[0], sqmu: sqrtF(f[0]), x0: x, x: x, elapsed: 0, dr: 0, dv: 0, hErr: 0, eErr: 0, resolved: true }

  /// largest row sums of the four blocks of the exact STM
  pure def gain(m: Mission, dt: int, chi: int): (int, int, int, int) =
    pure val cols = [0, 1, 2, 3, 4, 5].foldl([], (acc, i) => acc.append(column(m.mu, m.sqmu, m.x, dt, chi, i)))
    pure def row(c: int, k: int): int =
      imax(abs(comp(cols[c]._1, k)) + abs(comp(cols[c + 1]._1, k)) + abs(comp(cols[c + 2]._1, k)), 0)
    pure def rowV(c: int, k: int): int =
      imax(abs(comp(cols[c]._2, k)) + abs(comp(cols[c + 1]._2, k)) + abs(comp(cols[c + 2]._2, k)), 0)
    (imax(row(0, 0), imax(row(0, 1), row(0, 2))), imax(row(3, 0), imax(row(3, 1), row(3, 2))),
     imax(rowV(0, 0), imax(rowV(0, 1), rowV(0, 2))), imax(rowV(3, 0), imax(rowV(3, 1), rowV(3, 2))))

  /// op 3, HOP: [dt, hint, commit, r, v, hintTotal]
  pure def hop(m: Mission, eps: int, f: List[int]): (Mission, List[Obl]) =
    pure val fl = flow(m.mu, m.sqmu, m.x, f[0], f[1])
    pure val tot = flow(m.mu, m.sqmu, m.x0, m.elapsed + f[0], f[9])
    if (not(solved(fl)) or not(solved(tot))) (m, [(9, ONE, 0)]) else
    pure val b = budget(m.mu, m.x, f[0], fl, eps, 16)
    pure val g = gain(m, f[0], fl.chi)
    pure val dr = mul(g._1, m.dr) + mul(g._2, m.dv) + b.pos
    pure val dv = mul(g._3, m.dr) + mul(g._4, m.dv) + b.vel
    pure val y = { r: v3(f, 3), v: v3(f, 6) }
    pure val kp = kept(m.mu, m.x, y, fl, b, eps)
    pure val hErr = m.hErr + kp._1
    pure val eErr = m.eErr + kp._2
    pure val res = m.resolved and timeResolved(fl, b) and dr * 100 <= norm(fl.s.r) and dv * 100 <= norm(fl.s.v)
    pure val m2 = if (f[2] == 0) m else
      { ...m, x: fl.s, elapsed: m.elapsed + f[0], dr: dr, dv: dv, hErr: hErr, eErr: eErr, resolved: res }
    (m2, if (res) [
      closeV(1, y.r, fl.s.r, dr), closeV(2, y.v, fl.s.v, dv),
      // the group law of the specification itself: all hops at once is hop by hop
      closeV(3, tot.s.r, fl.s.r, norm(fl.s.r) / 10^12 + 10^20), closeV(4, tot.s.v, fl.s.v, norm(fl.s.v) / 10^12 + 10^20),
      closeV(5, hvec(y), hvec(m.x0), hErr),
      close(6, speed2(y) / 2 - div(m.mu, norm(y.r)), speed2(m.x0) / 2 - div(m.mu, norm(m.x0.r)), eErr) ]
      else [])

  // ---- Cowell solutions ---------------------------------------------------------------
  /// op 70, OPEN: [mode, t1, dt, hmax, cap, event]
  pure def openSol(f: List[int]): Proto =
    opened(f[0] / ONE, f[1], f[2], f[3], f[4] / ONE, f[5] != 0)
  /// op 74, FATE: [mu, x0(6), rmin, kind (1 never, 2 sure), tcross, hint, tlatest, slack]
  /// The claimed fate of the event is checked against the exact orbit: the periapsis radius
  /// is above the threshold, or tcross is the first descent through it.
  pure def fateOf(p: Proto, f: List[int]): (Proto, List[Obl]) =
    pure val mu = f[0]
    pure val x = { r: v3(f, 1), v: v3(f, 4) }
    pure val rmin = f[7]
    pure val rp = div(div(sq(norm(hvec(x))), mu), ONE + norm(evec(mu, x)))
    pure val above = norm(x.r) > rmin
    // a claim that does not hold is dropped (the event stays undecided)
    if (f[8] == ONE) (pure val good = above and rp > rmin
      (if (good) { ...p, fate: NEVER } else p, List(holds(9, good))))
    else
      pure val fl = flow(mu, sqrtF(mu), x, f[9], f[10])
      pure val al = fl.alpha
      pure val once = al <= 0 or mul(sq(f[9]), mul(mu, cube(al))) < sq(TWOPI)
      pure val good = solved(fl) and above and rp < rmin and f[9] >= 0 and once
                     and rdotv(fl.s) < 0 and abs(fl.rr - rmin) < rmin / 10^6
      (if (good) { ...p, fate: SURE, lo: f[9] - f[9] / 10^6, hi: f[11] + f[11] / 10^6 } else p, List(holds(9, good)))
  /// the clock of a fixed-step run accumulates rounding, and the integrator clips to t1 with
  /// a tolerance of 100 ulps
  pure def clock(p: Proto, eps: int): int = mul(eps, p.t1) * (2 * p.m + 200) + 100
  /// op 71, ROW: [t, req, rmin, x(6)]
  pure def solRow(p: Proto, eps: int, f: List[int]): (Proto, List[Obl]) =
    pure val slack = clock(p, eps)
    pure val low = norm(v3(f, 3)) < f[2]
    (afterRow(p, f[0], low), [ holds(1, rowOk(p)), holds(2, timeOk(p, f[0], f[1], low, slack)),
      holds(3, stepOk(p, f[0], slack)), holds(4, stopOk(p, f[0])) ])
  /// op 72, PAD: [req]
  pure def solPad(p: Proto, f: List[int]): (Proto, List[Obl]) =
    (afterPad(p), List(holds(1, padOk(p, f[0]))))
  /// op 75, PADS: [count]: a run of unused rows (not CUSTOM)
  pure def solPads(p: Proto, f: List[int]): (Proto, List[Obl]) =
    pure val k = f[0] / ONE
    ({ ...p, n: p.n + k }, List(holds(1, p.mode != CUSTOM and padOk(p, 0) and p.n + k <= p.cap)))
  /// op 73, CLOSE: [fired, steps, accepted, rejected]
  pure def solClose(p: Proto, f: List[int]): List[Obl] =
    pure val fired = f[0] != 0
    [ holds(1, closeOk(p, fired)), holds(2, firedOk(p, fired)),
      holds(3, statsOk(p, f[1] / ONE, f[2] / ONE, f[3] / ONE, fired)) ]

  // ---- memory ------------------------------------------------------------------------
  /// op 95, REPEAT: [call id, digest, inputs before, inputs after, dtype seen, dtype documented]
  pure def recall(mm: int -> int, f: List[int]): List[Obl] =
    [ holds(1, not(mm.keys().contains(f[0])) or mm.get(f[0]) == f[1]),
      holds(2, f[2] == f[3]),
      holds(3, f[4] == f[5]) ]

  // ---- iterations ---------------------------------------------------------------------
  /// op 45, WATCH: [solver (40, 41, 42), its arguments, tol]
  pure def watch(f: List[int]): (Watch, List[int]) = (watched(0), f)
  /// op 46, CAP: [answer with the next larger cap]
  pure def capped(s: (Watch, List[int]), eps: int, f: List[int]): ((Watch, List[int]), List[Obl]) =
    pure val o = judge(s._2[0] / ONE, eps, s._2.slice(1, s._2.length()).append(f[0]))[0]
    // the obligation's tolerance is the tolerance of the solve plus the rounding at this answer
    pure val w = { ...s._1, tol: o._3 }
    ((afterCap(w, o._2), s._2), [ holds(1, keepOk(w, o._2, o._3)) ])
  /// op 47, SOLVED: the last cap was the documented one
  pure def solvedBy(s: (Watch, List[int])): List[Obl] = [ holds(1, doneOk(s._1)) ]

  pure def react(i: int, packed: int, m: Mission, p: Proto, sv: (Watch, List[int]), mm: int -> int,
                 bd: List[(int, int, int, int, int)], w: (int, int) -> (int, int), n: int): After =
    pure val f = unpack(packed)
    pure val opc = f[0] / ONE
    pure val f32 = f[1] / ONE
    pure val eps = epsOf(f32)
    pure val a = f.slice(2, f.length())
    pure val out: (Mission, Proto, int -> int, List[Obl]) =
      if (opc == 2) (start(a), p, mm, [])
      else if (opc == 3) { pure val h = hop(m, eps, a) (h._1, p, mm, h._2) }
      else if (opc == 70) (m, openSol(a), mm, [])
      else if (opc == 71) { pure val h = solRow(p, eps, a) (m, h._1, mm, h._2) }
      else if (opc == 72) { pure val h = solPad(p, a) (m, h._1, mm, h._2) }
      else if (opc == 74) { pure val h = fateOf(p, a) (m, h._1, mm, h._2) }
      else if (opc == 75) { pure val h = solPads(p, a) (m, h._1, mm, h._2) }
      else if (opc == 73) (m, { ...p, open: false }, mm, solClose(p, a))
      else if (opc == 45 or opc == 46 or opc == 47) (m, p, mm, [])
      else if (opc == 95) (m, p, if (mm.keys().contains(a[0])) mm else mm.put(a[0], a[1]), recall(mm, a))
      else (m, p, mm, judge(opc, eps, a))
    pure val lp: ((Watch, List[int]), List[Obl]) =
      if (opc == 45) (watch(a), [])
      else if (opc == 46) capped(sv, eps, a)
      else if (opc == 47) (sv, solvedBy(sv))
      else (sv, [])
    pure val os = out._4.concat(lp._2)
    { op: opc, solve: lp._1, mission: out._1, proto: out._2, memo: out._3,
      bad: os.foldl(bd, (acc, o) =>
        if (o._2 > o._3 and acc.length() < 1000) acc.append((i, opc, o._1, o._2, o._3)) else acc),
      worst: os.foldl(w, (acc, o) =>
        pure val key = (opc + 1000 * f32, o._1)
        pure val q = ratio(o)
        if (acc.keys().contains(key)) (if (acc.get(key)._1 < q) acc.put(key, (q, i)) else acc)
        else acc.put(key, (q, i))),
      count: n + os.length() }

  action step = all {
    l < EVENTS.length(),
    nondet r = Set(react(l, EVENTS[l], mission, proto, solve, memo, bad, worst, count)).oneOf()
    all { l' = l + 1, op' = r.op, mission' = r.mission, proto' = r.proto, solve' = r.solve, memo' = r.memo,
          bad' = r.bad, worst' = r.worst, count' = r.count } }

  /// acceptance
  val accepted = l == EVENTS.length() and bad.length() == 0
  val clean = bad.length() == 0
}
