SPECIFICATION Spec
CONSTANTS
  Random = FALSE
INVARIANTS Exact Pages Relevant Tree
CHECK_DEADLOCK FALSE
