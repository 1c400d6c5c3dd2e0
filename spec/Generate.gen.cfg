SPECIFICATION Spec
CONSTANTS
  Random = TRUE
  Files = 6
INVARIANTS Merged Strong
