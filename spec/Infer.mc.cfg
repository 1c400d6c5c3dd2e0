SPECIFICATION Spec
CONSTANTS
  Random = FALSE
  Attrs = 2
  Names = 2
  Vals = 2
INVARIANTS Exact Few Defined
PROPERTIES Grows
CHECK_DEADLOCK FALSE
