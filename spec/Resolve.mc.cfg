SPECIFICATION Spec
INVARIANTS Confluent NoDangling Complaint Nearest V2Whole
CONSTANTS
  FirstWins = FALSE
  Random = FALSE

  Chain = FALSE
