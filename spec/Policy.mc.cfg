SPECIFICATION Spec
CONSTANTS
  Random = FALSE
  Marks = 1
INVARIANTS Complete Sound Silent NoStage
CHECK_DEADLOCK FALSE
