SPECIFICATION Spec
INVARIANTS Rejected OneVersion
CONSTANTS
  Random = TRUE
  MaxDepth = 10
