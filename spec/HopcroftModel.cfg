SPECIFICATION Spec
CONSTANTS
  N = 3
  K = 2
  Frozen = TRUE
INVARIANTS Minimal NeverTooFine
