SPECIFICATION Spec
CONSTANTS
  Random = FALSE
  Ids = 1
  Vers = {0, 1}
  Texts = 0
  Files = 1
  Steps = 0
INVARIANTS ScanExact Idempotent DryAgrees Untouched Framed
