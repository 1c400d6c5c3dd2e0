SPECIFICATION Spec
INVARIANTS StatsAgree FailsAgree AttrSound ModSound AssocSound
CONSTANTS
  Random = TRUE
