SPECIFICATION Spec
CONSTANTS
  Random = TRUE
  Exports = 0
  Cap = 100
  Idle = 0
  MaxTime = 0
