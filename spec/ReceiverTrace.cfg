SPECIFICATION TraceSpec
CONSTANTS
  Random = TRUE
  Exports = 0
  Cap = 100
  Idle = 0
  MaxTime = 0
  Clients = 1
  Ops = 0
  Burst = 0
  Heavy = 0
  Eager = 0
CHECK_DEADLOCK FALSE
