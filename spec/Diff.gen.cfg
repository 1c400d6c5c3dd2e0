SPECIFICATION Spec
CONSTANTS
  Random = TRUE
INVARIANTS Chain Mirror
