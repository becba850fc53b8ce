SPECIFICATION Spec
CONSTANTS
  N = 5
  V = 1
INVARIANTS Correct InRange
