SPECIFICATION Spec
INVARIANTS NoLeak Once Exactly Iff Everything
CONSTANTS
  Random = FALSE
  NR = 2
  NN = 1
