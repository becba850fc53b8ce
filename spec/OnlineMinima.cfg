SPECIFICATION Spec
CONSTANTS
  N = 4
  V = 1
INVARIANTS Correct InRange
