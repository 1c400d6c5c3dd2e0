SPECIFICATION Spec
CONSTANTS
  Random = FALSE
  Clients = 1
  Ops = 0
  Burst = 0
  Heavy = 0
  Eager = 0
INVARIANTS Admitted Bounded Held
PROPERTIES Finishes Answered
CHECK_DEADLOCK FALSE
