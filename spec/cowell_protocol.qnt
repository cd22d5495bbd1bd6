// -*- mode: Bluespec; -*-
/// Exhaustive exploration of the save protocol on small integers.
/// An abstract integrator (arbitrary accepted steps, arbitrary descent below the threshold)
/// produces solutions; the acceptor of protocol.qnt, the very guards that judge recorded
/// solutions, watches. Two claims:
///   sound     - whatever a correct integrator does, the acceptor accepts (no false alarms);
///   complete  - whenever one of the faults below makes a difference, the acceptor rejects.
module cowell_protocol {
  import protocol.* from "./protocol"

  // faults
  pure val NONE = 0
  pure val NO_T0 = 1        // the initial row is not saved
  pure val OVERSHOOT = 2    // the last step is not clipped
  pure val DEAF = 3         // the event is ignored
  pure val LATE = 4         // one more step is taken after the event
  pure val WRONG_DT = 5     // FIXED: the step is not dt
  pure val STEP_TIME = 6    // CUSTOM: saves at the end of the step, not at the request
  pure val SHORT = 7        // running out of room is returned as a solution
  pure val HUSH = 8         // the event stops the run but is not reported
  pure val DROP_LAST = 9    // the last row is not saved
  pure val NO_HMAX = 10     // the longest step of the controller is ignored
  pure val FAULTS = 0.to(10)

  var p: Proto              // the acceptor
  var t: int                // the integrator's clock
  var below: int            // first time below the threshold (0: never)
  var up: int               // and back above
  var stride: int           // CUSTOM: row i requests i * stride
  var fault: int
  var fired: bool
  var running: bool
  var accepted: int
  var hit: bool             // did the fault make a difference?
  var ok: bool              // has every clause held so far?
  var closed: bool

  pure def isLow(a: int, b: int, c: int): bool = b > 0 and a >= b and a < c

  action init = {
    nondet mode = Set(FIXED, ADAPTIVE, CUSTOM, FINAL, ENDS, STEPS).oneOf()
    nondet t1 = 1.to(5).oneOf()
    nondet dt = 1.to(3).oneOf()
    nondet hm = 0.to(3).oneOf()
    nondet cap0 = 1.to(6).oneOf()
    nondet ev = Set(true, false).oneOf()
    nondet b = 0.to(5).oneOf()
    nondet w = 1.to(4).oneOf()
    nondet st = 1.to(2).oneOf()
    nondet fl = FAULTS.oneOf()
    // knowledge given to the acceptor: nothing, or the true fate of the event
    nondet tell = Set(true, false).oneOf()
    val cap = if (mode == FINAL) 1 else if (mode == ENDS) 2
              else if (mode == CUSTOM) (if (cap0 - 1 > t1 / st) t1 / st + 1 else cap0) else cap0
    val reach = if (mode == FIXED) dt else hm
    val low = if (b > t1) 0 else b
    val sure = ev and low > 0 and reach > 0 and w >= reach and low + reach <= t1
    val p0 = opened(mode, t1, dt, if (mode == FIXED) 0 else hm, cap, ev)
    all {
      p' = if (tell and low == 0) { ...p0, fate: NEVER }
           else if (tell and sure) { ...p0, fate: SURE, lo: low, hi: low + reach }
           else p0,
      t' = 0, below' = low, up' = low + w, stride' = st, fault' = fl, fired' = false,
      running' = true, accepted' = 0, hit' = false, ok' = true, closed' = false } }

  /// saves a finite row
  pure def row(q: Proto, time: int, req: int, low: bool): (Proto, bool) =
    (afterRow(q, time, low),
     rowOk(q) and timeOk(q, time, req, low, 0) and stepOk(q, time, 0) and stopOk(q, time))

  action same = all { below' = below, up' = up, stride' = stride, fault' = fault }

  val hungry = p.n < p.cap
  val saves0 = p.mode == FIXED or p.mode == ADAPTIVE or p.mode == ENDS

  /// the initial row
  action first = all {
    running, t == 0, accepted == 0, saves0, p.n == 0, not(hit), hungry, not(closed),
    if (fault == NO_T0) all { hit' = true, p' = p, ok' = ok }
    else { val r = row(p, 0, 0, isLow(0, below, up)) all { p' = r._1, ok' = (ok and r._2), hit' = hit } },
    same, t' = t, fired' = fired, running' = running, accepted' = accepted, closed' = closed }

  /// CUSTOM: a requested time that has been reached
  val pending = p.mode == CUSTOM and p.n < p.cap and p.n * stride <= t and running
  action request = all {
    pending, not(closed),
    val req = p.n * stride
    val at = if (fault == STEP_TIME) t else req
    val r = row(p, at, req, isLow(at, below, up))
    all { p' = r._1, ok' = (ok and r._2), hit' = (hit or at != req) },
    same, t' = t, fired' = fired, running' = running, accepted' = accepted, closed' = closed }

  val started = not(saves0) or p.n > 0 or hit

  /// an accepted step
  action advance = all {
    running, started, not(pending), not(closed), not(fired), t < p.t1,
    // a full buffer: a correct integrator raises (no transition), a faulty one returns
    (p.mode == FIXED or p.mode == ADAPTIVE or p.mode == STEPS) implies hungry,
    nondet h0 = 1.to(5).oneOf()
    val cap = if (p.hmax == 0 or fault == NO_HMAX) 5 else p.hmax
    val free = if (p.mode == FIXED) (if (fault == WRONG_DT) h0 else p.dt) else h0
    val t2 = if (t + free > p.t1 and fault != OVERSHOOT) p.t1 else t + free
    val low = isLow(t2, below, up)
    val stop = p.event and low and fault != DEAF and not(fault == LATE and not(hit))
    val last = stop or t2 >= p.t1
    val drop = fault == DROP_LAST and last
    val r = row(p, t2, t2, low)
    all {
      p.mode == FIXED or (h0 <= cap),
      t' = t2, accepted' = accepted + 1,
      fired' = stop,
      if ((p.mode == FIXED or p.mode == ADAPTIVE or p.mode == STEPS) and not(drop)) all { p' = r._1, ok' = (ok and r._2) }
      else all { p' = p, ok' = ok },
      hit' = or { hit,
                  fault == OVERSHOOT and t2 > p.t1 and p.mode != CUSTOM,
                  // without knowledge of its fate, an event inside an unsaved step cannot be missed visibly
                  fault == DEAF and p.event and low and (stepwise(p) or p.fate == SURE),
                  fault == LATE and p.event and low and t2 < p.t1 and stepwise(p),
                  fault == WRONG_DT and p.mode == FIXED and t2 - t != p.dt and not(t2 == p.t1 and t2 - t < p.dt),
                  fault == NO_HMAX and p.hmax > 0 and (p.mode == ADAPTIVE or p.mode == STEPS) and t2 - t > p.hmax,
                  drop and (p.mode == FIXED or p.mode == ADAPTIVE or p.mode == STEPS) },
      same, running' = running, closed' = closed } }

  val over = running and started and not(pending) and (fired or t >= p.t1)
  /// the run is over: the single rows of FINAL and ENDS
  action finish = all {
    over, not(closed),
    val r = row(p, t, t, isLow(t, below, up))
    if ((p.mode == FINAL or p.mode == ENDS) and fault != DROP_LAST and hungry)
      all { p' = r._1, ok' = (ok and r._2), hit' = hit }
    else all { p' = p, ok' = ok, hit' = (hit or (fault == DROP_LAST and (p.mode == FINAL or p.mode == ENDS))) },
    running' = false, same, t' = t, fired' = fired, accepted' = accepted, closed' = closed }

  /// SHORT: the buffer is full and the solution is returned as if it were complete
  action giveUp = all {
    fault == SHORT, running, started, p.mode == FIXED or p.mode == ADAPTIVE or p.mode == STEPS, not(hungry), t < p.t1, not(fired), not(closed),
    running' = false, hit' = true, same, p' = p, t' = t, fired' = fired, accepted' = accepted, ok' = ok, closed' = closed }

  action pad = all {
    not(running), hungry, not(closed),
    p' = afterPad(p), ok' = (ok and padOk(p, p.n * stride)),
    same, t' = t, fired' = fired, running' = running, accepted' = accepted, hit' = hit, closed' = closed }

  action close = all {
    not(running), not(hungry), not(closed),
    val said = fired and fault != HUSH
    all { ok' = and { ok, closeOk(p, said), firedOk(p, said), statsOk(p, accepted, accepted, 0, said) },
          hit' = (hit or (fault == HUSH and fired and (p.mode != CUSTOM or p.n > p.m or p.fate == SURE))) },
    closed' = true, p' = { ...p, open: false }, same, t' = t, fired' = fired, running' = running, accepted' = accepted }

  action stutter = all { closed, p' = p, same, t' = t, fired' = fired, running' = running, accepted' = accepted, hit' = hit, ok' = ok, closed' = closed }

  action step = any { first, request, advance, finish, giveUp, pad, close, stutter }

  /// no false alarm
  val sound = fault == NONE implies ok
  /// no miss
  val complete = (closed and hit) implies not(ok)
  val inv = sound and complete
  // witnesses: the interesting behaviours are reachable
  val wClosed = not(closed and fault == NONE and fired and p.mode == CUSTOM)
  val wShort = not(closed and fault == SHORT and hit)
}
