SPECIFICATION Spec
CONSTANTS
  Random = TRUE
