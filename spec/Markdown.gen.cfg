SPECIFICATION Spec
CONSTANTS
  Random = TRUE
  Vers = {0, 1, 2, 3}
INVARIANTS Idempotent DryAgrees Untouched Framed
