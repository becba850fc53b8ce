SPECIFICATION Spec
CONSTANTS
  R = 4
  C = 4
  V = 1
INVARIANT Correct
