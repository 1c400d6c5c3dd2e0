SPECIFICATION Spec
INVARIANTS ReportExact NothingLost OnlyClashes
CONSTANTS
  Random = FALSE
  Files = {"f1"}
