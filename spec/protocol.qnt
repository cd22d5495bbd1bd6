// -*- mode: Bluespec; -*-
/// The save protocol of Cowell propagation as a pure transition system: what a solution
/// may look like, row by row. The same guards drive the exhaustive exploration
/// (cowell_protocol.qnt, small integers, Apalache) and the validation of recorded solutions
/// (trace.qnt, fixed-point reals).
module protocol {
  type Mode = int
  pure val FIXED: Mode = 0      // t0 + every step of size dt
  pure val ADAPTIVE: Mode = 1   // t0 + every accepted step
  pure val CUSTOM: Mode = 2     // the requested times, nothing else
  pure val FINAL: Mode = 3      // the end only
  pure val ENDS: Mode = 4       // t0 and t1 (general interface)
  pure val STEPS: Mode = 5      // every accepted step, without t0 (general interface)

  /// what is known in advance about the armed event
  type Fate = int
  pure val UNKNOWN: Fate = 0
  pure val NEVER: Fate = 1      // the radius stays above the threshold
  pure val SURE: Fate = 2       // it falls below at time lo, and a step ends below before hi

  type Proto = {
    mode: Mode,
    t1: int, dt: int, hmax: int,   // end of the span, step (FIXED), longest step (0 = unknown)
    cap: int,                      // length of the arrays of the solution
    event: bool,                   // is a radius event armed?
    fate: Fate, lo: int, hi: int,
    n: int,                        // rows seen so far
    m: int,                        // of these, with a finite time
    last: int,                     // time of the last finite row, -1 before the first
    low: bool,                     // was the last finite row below the threshold?
    open: bool }

  pure def opened(mode: Mode, t1: int, dt: int, hmax: int, cap: int, event: bool): Proto =
    { mode: mode, t1: t1, dt: dt, hmax: hmax, cap: cap, event: event, fate: UNKNOWN, lo: 0, hi: 0,
      n: 0, m: 0, last: -1, low: false, open: true }

  pure def dabs(a: int): int = if (a < 0) 0 - a else a
  pure def near(a: int, b: int, slack: int): bool = dabs(a - b) <= slack

  /// does the mode save every step?
  pure def stepwise(p: Proto): bool = p.mode == FIXED or p.mode == ADAPTIVE or p.mode == STEPS
  /// where the step that ends at the next row began
  pure def prev(p: Proto): int = if (p.mode == STEPS and p.m == 0) 0 else p.last

  /// has the solution already ended, so that only unused rows may follow?
  pure def ended(p: Proto): bool =
    or { p.n > p.m,                                   // padding has begun
         and { p.m > 0, stepwise(p), p.last == p.t1 },
         and { p.event, p.low, stepwise(p) },
         and { p.mode == FINAL, p.m > 0 },
         and { p.mode == ENDS, p.m > 1 } }

  // ---- a finite row ------------------------------------------------------------
  /// clause 1: is another finite row admissible at all?
  pure def rowOk(p: Proto): bool = p.open and p.n < p.cap and not(ended(p))

  /// clause 2: is t an admissible time of this row? `req` is the requested time (CUSTOM),
  /// `low` whether this row is below the threshold
  pure def timeOk(p: Proto, t: int, req: int, low: bool, slack: int): bool =
    pure val early = p.event and low and 0 < t and t < p.t1
    if (p.mode == CUSTOM) t == req
    else if (p.mode == FINAL) (t == p.t1 or early)
    else if (p.mode == STEPS) (prev(p) < t and t <= p.t1)
    else if (p.m == 0) t == 0
    else if (p.mode == ENDS) (t == p.t1 or early)
    else if (p.mode == ADAPTIVE) (p.last < t and t <= p.t1)
    else // FIXED: exactly one step on, or the clipped last step
      or { near(t, p.last + p.dt, slack) and t <= p.t1,
           t == p.t1 and p.last < p.t1 and p.t1 <= p.last + p.dt + slack }

  /// clause 3: the step is no longer than the controller's cap
  pure def stepOk(p: Proto, t: int, slack: int): bool =
    or { p.hmax == 0, p.m == 0 and p.mode != STEPS, not(stepwise(p)), t - prev(p) <= p.hmax + slack }

  /// clause 4: nothing is saved later than the latest possible stop
  pure def stopOk(p: Proto, t: int): bool = p.fate != SURE or t <= p.hi

  pure def afterRow(p: Proto, t: int, low: bool): Proto =
    { ...p, n: p.n + 1, m: p.m + 1, last: t, low: low }

  // ---- an unused row -------------------------------------------------------------
  /// clause 1: only after the end, or (CUSTOM) once an armed event has fired
  pure def padOk(p: Proto, req: int): bool =
    and { p.open, p.n < p.cap,
          if (p.mode == CUSTOM) and { p.event, p.fate != NEVER, p.fate != SURE or req > p.lo }
          else ended(p) }
  pure def afterPad(p: Proto): Proto = { ...p, n: p.n + 1 }

  // ---- the end ---------------------------------------------------------------------
  /// clause 1: is the closed solution complete? `fired`: an event is reported
  pure def closeOk(p: Proto, fired: bool): bool =
    and { p.open, p.n == p.cap,
          if (p.mode == CUSTOM) fired or p.n == p.m
          else p.m > 0 and (p.mode != ENDS or p.m == 2) and (p.last == p.t1 or (fired and p.low)) }
  /// clause 2: is the reported outcome right?
  pure def firedOk(p: Proto, fired: bool): bool =
    and { not(fired) or (p.event and p.fate != NEVER),
          fired or p.fate != SURE,
          // a step that ends below the threshold is where it stops
          p.mode == CUSTOM or not(p.event) or fired == p.low,
          not(fired) or p.mode == CUSTOM or p.fate != SURE or p.last >= p.lo }
  /// clause 3: do the step counters fit the rows?
  pure def statsOk(p: Proto, steps: int, accepted: int, rejected: int, fired: bool): bool =
    and { steps == accepted + rejected, accepted >= 0, rejected >= 0,
          not(stepwise(p)) or accepted == (if (p.mode == STEPS) p.m else p.m - 1),
          p.mode != FIXED or rejected == 0,
          fired or p.hmax == 0 or accepted * (p.hmax + p.hmax / 1000) >= p.t1 }
}
