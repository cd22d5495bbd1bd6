// -*- mode: Bluespec; -*-
/// Generator of behaviours: each step picks one call of the system under test, i.e. a
/// regime of the input domain, a call mode and the positions inside the regime. The harness
/// only turns regimes into floating-point numbers (harness/conc.py); which combinations are
/// exercised is decided here. Conic kind and time class are enumerated, everything else is
/// drawn at random by the simulator.
module gen {
  /// number of conic kinds, time classes, orientations, anomaly sectors, unit systems,
  /// call modes
  pure val KINDS: int = 16
  pure val TIMES: int = 12
  pure val GEOS: int = 9
  pure val SECTORS: int = 10
  pure val UNITS: int = 7
  pure val MODES: int = 6

  type Cmd = { kind: int, time: int, geo: int, sector: int, units: int, mode: int, op: int,
               j1: int, j2: int, j3: int, j4: int, j5: int, j6: int, n: int, c: int }

  var cmd: Cmd
  var tick: int

  action init = all {
    tick' = 0,
    cmd' = { kind: 0, time: 0, geo: 0, sector: 0, units: 0, mode: 0, op: 0,
             j1: 0, j2: 0, j3: 0, j4: 0, j5: 0, j6: 0, n: 0, c: 0 } }

  action step = {
    nondet geo = 0.to(GEOS - 1).oneOf()
    nondet sector = 0.to(SECTORS - 1).oneOf()
    nondet units = 0.to(UNITS - 1).oneOf()
    nondet mode = 0.to(MODES - 1).oneOf()
    nondet op = 0.to(9999).oneOf()
    nondet j1 = 0.to(999999).oneOf()
    nondet j2 = 0.to(999999).oneOf()
    nondet j3 = 0.to(999999).oneOf()
    nondet j4 = 0.to(999999).oneOf()
    nondet j5 = 0.to(999999).oneOf()
    nondet j6 = 0.to(999999).oneOf()
    nondet n = 0.to(99).oneOf()
    nondet c = 0.to(9).oneOf()
    all {
      tick' = tick + 1,
      // a stride coprime to KINDS walks through all kind x time combinations
      cmd' = { kind: tick % KINDS, time: (tick / KINDS) % TIMES, geo: geo, sector: sector, units: units,
               mode: mode, op: op, j1: j1, j2: j2, j3: j3, j4: j4, j5: j5, j6: j6, n: n, c: c } } }
}
