SPECIFICATION Spec
CONSTANTS
  N = 2
  K = 2
INVARIANT Correct
