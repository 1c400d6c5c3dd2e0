SPECIFICATION Spec
INVARIANTS NoLeak Once Exactly
CONSTANTS
  Random = TRUE
