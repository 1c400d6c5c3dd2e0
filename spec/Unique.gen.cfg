SPECIFICATION Spec
INVARIANTS ReportExact NothingLost OnlyClashes
CONSTANTS
  Random = TRUE
  Files = {"f1", "f2", "f3"}
