SPECIFICATION Spec
CONSTANTS
  R = 3
  C = 3
  V = 2
INVARIANT Correct
