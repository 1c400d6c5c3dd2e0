SPECIFICATION Spec
CONSTANTS
  Random = TRUE
CHECK_DEADLOCK FALSE
