SPECIFICATION Spec
CONSTANTS
  N = 2
  K = 1
INVARIANT Correct
