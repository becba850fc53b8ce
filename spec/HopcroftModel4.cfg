SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 2
  Frozen = TRUE
INVARIANTS Minimal
