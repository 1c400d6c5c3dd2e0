SPECIFICATION Spec
INVARIANTS Layered Independent Whole CliWins
CONSTANTS
  Random = FALSE
  Density = 0
  Only = ""
