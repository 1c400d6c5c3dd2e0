SPECIFICATION Spec
INVARIANTS Rejected OneVersion
PROPERTY Rising
CONSTANTS
  Random = FALSE
  Chain = FALSE
  NN = 3
