// -*- mode: Bluespec; -*-
/// What is demanded of an iterative solver, for the exhaustive exploration on small integers
/// (solver_loop.qnt) and for recorded calls (trace.qnt, ops 46 and 47).
module loop_rules {
  /// a lane of a batch has the answer it has alone
  pure def laneOk(got: int, alone: int): bool = got == alone
  /// the loop is bounded by the largest cap
  pure def boundOk(rounds: int, cap: int): bool = rounds <= cap
  /// unless its cap stops it, a solve ends within the tolerance
  pure def rootOk(residual: int, tol: int, its: int, cap: int): bool = residual <= tol or its >= cap

  /// A solve watched through growing caps: the answers for cap 0, 1, 2, ...
  type Watch = { tol: int, done: bool, n: int }
  pure def watched(tol: int): Watch = { tol: tol, done: false, n: 0 }
  /// one more iteration never loses a root that was already found
  pure def keepOk(w: Watch, residual: int, slack: int): bool = not(w.done) or residual <= w.tol + slack
  pure def afterCap(w: Watch, residual: int): Watch = { ...w, done: w.done or residual <= w.tol, n: w.n + 1 }
  /// with the documented number of iterations the root is found
  pure def doneOk(w: Watch): bool = w.done
}
