SPECIFICATION Spec
CONSTANTS
  N = 4
  V = 2
INVARIANTS Correct InRange
