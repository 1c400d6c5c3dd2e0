SPECIFICATION Spec
CONSTANTS
  Random = TRUE
INVARIANTS Exact Few Defined
