SPECIFICATION Spec
CONSTANTS
  Random = FALSE
  Params = 1
  Files = 2
INVARIANTS Merged Ends Sound Strong
CHECK_DEADLOCK FALSE
