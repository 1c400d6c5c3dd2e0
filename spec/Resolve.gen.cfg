SPECIFICATION Spec
INVARIANTS Confluent NoDangling Complaint Nearest V2Whole
CONSTANTS
  FirstWins = FALSE
  Random = TRUE
  Fields = {"brief","note","examples","tag","requirement_level","sampling_relevant","stability","deprecated","annotations","role"}
