// -*- mode: Bluespec; -*-
/// A recorded trace (this one is a placeholder; the harness validates a copy of the
/// specification in which this module holds the packed events of the run).
module data {
  pure val EVENTS: List[int] = []
}
