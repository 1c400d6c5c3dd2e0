SPECIFICATION Spec
CONSTANTS
  Random = FALSE
INVARIANTS ListExact OncePerItem SelfEmpty Applies Chain Mirror
