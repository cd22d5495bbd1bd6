// -*- mode: Bluespec; -*-
/// The iteration of the Kepler solvers, alone and batched, on small integers.
/// A problem is a sequence of residual sizes, one per iteration; its answer is the number of
/// iterations it takes. Alone, it iterates while the residual is above its tolerance and the
/// cap is not reached. In a batch the loop runs while any lane wants to, every lane is
/// computed, and a lane that is finished keeps its answer. Claims, for all residual
/// sequences (converging or not), tolerances and caps of three lanes:
///   alone     - a lane of a batch has the answer it has alone;
///   bounded   - the loop body runs at most max(cap) times;
///   root      - a lane that converges within its cap ends within its tolerance;
///   complete  - whenever one of the faults below changes an answer or the number of
///               rounds, the acceptor (the guards that judge recorded solver calls)
///               rejects.
module solver_loop {
  import loop_rules.* from "./loop_rules"

  pure val LANES = 0.to(2)
  pure val ROUNDS = 4               // length of a residual sequence
  pure val NONE = 0
  pure val NO_SELECT = 1            // finished lanes are overwritten
  pure val REAWAKE = 2              // the test of a finished lane turns true again
  pure val SHARED_TOL = 3           // the tolerance of lane 0 is used for all
  pure val SHARED_CAP = 4           // the cap of lane 0 is used for all
  pure val ANY_DONE = 5             // the loop ends when the first lane is finished
  pure val NO_CAP = 6               // the cap is ignored
  pure val ABS_TOL = 7              // the sign of the residual is lost: negative counts as converged

  var res: int -> List[int]         // residuals, signed
  var tol: int -> int
  var cap: int -> int
  var fault: int
  var it: int -> int                // iterations done by a lane
  var rounds: int
  var over: bool

  pure def mag(x: int): int = if (x < 0) 0 - x else x
  pure def at(s: List[int], k: int): int = if (k < s.length()) s[k] else s[s.length() - 1]

  /// the answer of a lane on its own
  pure def solo(s: List[int], tl: int, cp: int): int =
    0.to(ROUNDS + 2).fold(0, (k, _) => if (k < cp and mag(at(s, k)) > tl) k + 1 else k)

  def wants(i: int): bool =
    val tl = if (fault == SHARED_TOL) tol.get(0) else tol.get(i)
    val cp = if (fault == SHARED_CAP) cap.get(0) else cap.get(i)
    val r = at(res.get(i), it.get(i))
    val open = if (fault == ABS_TOL) r > tl else mag(r) > tl
    and { open, fault == NO_CAP or it.get(i) < cp }

  action init = {
    nondet r0 = 0.to(ROUNDS - 1).setOfMaps((-2).to(2)).oneOf()
    nondet r1 = 0.to(ROUNDS - 1).setOfMaps((-2).to(2)).oneOf()
    nondet r2 = 0.to(ROUNDS - 1).setOfMaps((-2).to(2)).oneOf()
    nondet t = LANES.setOfMaps(0.to(1)).oneOf()
    nondet c = LANES.setOfMaps(0.to(ROUNDS)).oneOf()
    nondet fl = 0.to(7).oneOf()
    all {
      res' = Map(0 -> List(r0.get(0), r0.get(1), r0.get(2), r0.get(3)),
                 1 -> List(r1.get(0), r1.get(1), r1.get(2), r1.get(3)),
                 2 -> List(r2.get(0), r2.get(1), r2.get(2), r2.get(3))),
      tol' = t, cap' = c, fault' = fl,
      it' = LANES.mapBy(_ => 0), rounds' = 0, over' = false } }

  /// somebody wants another round, and nothing ends the loop early
  val goesOn =
    val w = LANES.filter(i => wants(i))
    if (fault == ANY_DONE) w == LANES
    else if (fault == REAWAKE) (w != Set() or (rounds > 0 and LANES.exists(i => it.get(i) < rounds)))
    else w != Set()

  action turn = all {
    not(over), goesOn, rounds <= ROUNDS + 1,
    it' = LANES.mapBy(i => if (wants(i) or fault == NO_SELECT) it.get(i) + 1 else it.get(i)),
    rounds' = rounds + 1,
    over' = over, res' = res, tol' = tol, cap' = cap, fault' = fault }

  action finish = all {
    not(over), not(goesOn) or rounds > ROUNDS + 1,
    over' = true,
    it' = it, rounds' = rounds, res' = res, tol' = tol, cap' = cap, fault' = fault }

  action rest = all { over, over' = over, it' = it, rounds' = rounds, res' = res, tol' = tol, cap' = cap, fault' = fault }

  action step = any { turn, finish, rest }

  val maxCap = LANES.fold(0, (m, i) => if (cap.get(i) > m) cap.get(i) else m)
  val answers = LANES.forall(i => laneOk(it.get(i), solo(res.get(i), tol.get(i), cap.get(i))))
  val bounded = boundOk(rounds, maxCap)
  val roots = LANES.forall(i => rootOk(mag(at(res.get(i), it.get(i))), tol.get(i), it.get(i), cap.get(i)))

  /// a correct loop is accepted at its end ...
  val sound = (over and fault == NONE) implies and { answers, bounded, roots }
  /// ... at every moment no lane is past its own answer ...
  val never_past = fault == NONE implies and { rounds <= maxCap, LANES.forall(i => it.get(i) <= solo(res.get(i), tol.get(i), cap.get(i))) }
  /// ... and a wrong root is never accepted
  val complete = (over and not(roots)) implies not(and { answers, bounded })
  val inv = and { sound, never_past, complete }
  // witnesses
  val wReawake = not(over and fault == REAWAKE and not(bounded))
  val wTol = not(over and fault == SHARED_TOL and not(answers))
  val wCap = not(over and fault == NO_CAP and not(answers))
}
