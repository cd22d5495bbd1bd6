// -*- mode: Bluespec; -*-
/// Histories of calls for the purity property: the population of distinct questions is a
/// grid of FUNS functions x WAYS ways of asking; a history asks new questions in a fixed
/// order, repeats earlier ones, switches between the ways of asking one function (among them
/// two questions that live in the same buffers) and is interrupted by failing calls and by
/// unrelated activity. The specification's memo (trace.qnt, op 95) decides what the answers
/// may be: a question has one answer for the whole history.
module gen_calls {
  pure val FUNS: int = 22
  pure val WAYS: int = 4

  type Cmd = { act: str, fn: int, way: int, own: bool, k: int, j1: int, j2: int, j3: int, j4: int, j5: int, j6: int,
               kind: int, time: int, geo: int, sector: int, units: int, mode: int, op: int, n: int, c: int }

  var cmd: Cmd
  /// questions asked so far, the next new one, the last function
  var asked: Set[(int, int)]
  var upto: int
  var last: int
  /// history of the model: question -> how often it was answered (a question is answered
  /// at most once from scratch, all later answers are repetitions)
  var firsts: Set[(int, int)]
  /// calls that follow immediately: when a question that shares its buffers with another one
  /// is asked for the first time, the other one is put into the same buffers, asked again with
  /// buffers of its own, and the first one is repeated
  var todo: List[(int, int, bool)]
  var repeats: int

  pure val NOCMD: Cmd = { act: "none", fn: 0, way: 0, own: false, k: 0, j1: 0, j2: 0, j3: 0, j4: 0, j5: 0, j6: 0,
                          kind: 0, time: 0, geo: 0, sector: 0, units: 0, mode: 0, op: 0, n: 0, c: 0 }

  action init = all {
    cmd' = NOCMD, asked' = Set(), upto' = 0, last' = 0, firsts' = Set(), repeats' = 0, todo' = [] }

  /// a question together with the regime its numbers are drawn from
  action ask(q: (int, int), how: Set[bool]): bool = {
    nondet own = how.oneOf()
    nondet kind = 0.to(15).oneOf()
    nondet time = 0.to(11).oneOf()
    nondet geo = 0.to(8).oneOf()
    nondet sector = 0.to(9).oneOf()
    nondet units = 0.to(6).oneOf()
    nondet j1 = 0.to(999999).oneOf()
    nondet j2 = 0.to(999999).oneOf()
    nondet j3 = 0.to(999999).oneOf()
    nondet j4 = 0.to(999999).oneOf()
    nondet j5 = 0.to(999999).oneOf()
    nondet j6 = 0.to(999999).oneOf()
    all {
      cmd' = { act: "ask", fn: q._1, way: q._2, own: own, k: 0, j1: j1, j2: j2, j3: j3, j4: j4, j5: j5, j6: j6,
               kind: kind, time: time, geo: geo, sector: sector, units: units, mode: 0, op: 0, n: 0, c: j1 % 10 },
      asked' = asked.union(Set(q)), last' = q._1,
      firsts' = if (asked.contains(q)) firsts else firsts.union(Set(q)),
      repeats' = if (asked.contains(q)) repeats + 1 else repeats } }

  /// the next question of the population: functions first, then ways, so that the ways of
  /// one function are asked far apart
  action fresh = all {
    upto < FUNS * WAYS,
    val f = upto % FUNS
    val w = (upto / FUNS + f) % WAYS
    all {
      ask((f, w), if (w < 2) Set(true, false) else Set(false)),
      todo' = if (w < 2) [] else List((f, 5 - w, false), (f, 5 - w, true), (f, w, false)),
      upto' = upto + 1 } }

  action follow = all {
    todo.length() > 0,
    ask((todo[0]._1, todo[0]._2), Set(todo[0]._3)),
    todo' = todo.tail(),
    upto' = upto }

  action again = all {
    asked != Set(),
    nondet q = asked.oneOf()
    ask(q, Set(true, false)),
    todo' = [],
    upto' = upto }

  /// another way of asking the function that was asked last
  action sibling = all {
    asked != Set(),
    nondet w = 0.to(WAYS - 1).oneOf()
    ask((last, w), Set(true, false)),
    todo' = [],
    upto' = upto }

  action other(name: str): bool = {
    nondet k = 0.to(11).oneOf()
    all {
      cmd' = { ...NOCMD, act: name, k: k },
      asked' = asked, upto' = upto, last' = last, firsts' = firsts, repeats' = repeats, todo' = [] } }

  action step = if (todo.length() > 0) follow
    else any { fresh, fresh, again, sibling, other("fail"), other("outside") }

  /// every answered question was asked, and no question has two first answers
  val inv = and { firsts == asked, asked.size() <= FUNS * WAYS, upto <= FUNS * WAYS }
}
