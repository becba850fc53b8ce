SPECIFICATION Spec
CONSTANTS
  R = 2
  C = 5
  V = 2
INVARIANT Correct
