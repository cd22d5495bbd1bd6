// -*- mode: Bluespec; -*-
/// Histories of propagation: a body is put on an orbit and then coasts, forwards, backwards,
/// by several legs, with looks ahead that do not move it, and returns to where it started.
/// Time is counted in ticks of a quantum that the harness fixes per mission.
module gen_mission {
  pure val KINDS: int = 15
  pure val REACH: int = 8        // |total elapsed ticks| <= REACH
  pure val MAXHOPS: int = 9

  type Cmd = { act: int, ticks: int, kind: int, geo: int, sector: int, units: int, mode: int, time: int,
               op: int, j1: int, j2: int, j3: int, j4: int, j5: int, j6: int, n: int, c: int }
  var cmd: Cmd
  var pos: int       // ticks since the start of the mission
  var hops: int      // legs flown
  var missions: int

  pure val idle: Cmd = { act: -1, ticks: 0, kind: 0, geo: 0, sector: 0, units: 0, mode: 0, time: 0, op: 0,
    j1: 0, j2: 0, j3: 0, j4: 0, j5: 0, j6: 0, n: 0, c: 0 }

  action init = all { cmd' = idle, pos' = 0, hops' = MAXHOPS, missions' = 0 }

  action start = all {
    hops >= MAXHOPS,
    nondet geo = 0.to(8).oneOf()
    nondet sector = 0.to(9).oneOf()
    nondet units = 0.to(6).oneOf()
    nondet time = 0.to(11).oneOf()
    nondet j1 = 0.to(999999).oneOf()
    nondet j2 = 0.to(999999).oneOf()
    nondet j3 = 0.to(999999).oneOf()
    nondet j4 = 0.to(999999).oneOf()
    nondet j5 = 0.to(999999).oneOf()
    nondet j6 = 0.to(999999).oneOf()
    nondet c = 0.to(9).oneOf()
    cmd' = { act: 0, ticks: 0, kind: missions % KINDS, geo: geo, sector: sector, units: units, mode: 0, time: time,
             op: 0, j1: j1, j2: j2, j3: j3, j4: j4, j5: j5, j6: j6, n: 0, c: c },
    pos' = 0, hops' = 0, missions' = missions + 1 }

  action coast = all {
    hops < MAXHOPS,
    nondet k = (-5).to(5).oneOf()
    nondet mode = 0.to(3).oneOf()
    all { pos + k <= REACH, pos + k >= 0 - REACH,
      cmd' = { ...idle, act: 1, ticks: k, mode: mode },
      pos' = pos + k, hops' = hops + 1, missions' = missions } }

  /// look ahead from here without moving
  action look = all {
    hops < MAXHOPS,
    nondet k = (-3).to(3).oneOf()
    nondet n = 1.to(6).oneOf()
    all { pos + k <= REACH, pos + k >= 0 - REACH,
      cmd' = { ...idle, act: 2, ticks: k, n: n },
      pos' = pos, hops' = hops, missions' = missions } }

  /// back to the start in one leg
  action home = all {
    hops < MAXHOPS, hops > 0, pos != 0,
    cmd' = { ...idle, act: 3, ticks: 0 - pos },
    pos' = 0, hops' = hops + 1, missions' = missions }

  action step = any { start, coast, coast, look, home }

  // ---- properties of the design, checked exhaustively with Apalache ----
  val inv = and {
    pos <= REACH, pos >= 0 - REACH, hops <= MAXHOPS,
    cmd.act == 3 implies pos == 0,
    cmd.act == 0 implies pos == 0 and hops == 0,
    cmd.act == 2 implies hops < MAXHOPS }
}
