SPECIFICATION Spec
INVARIANTS Answer Safe Meaning
CONSTANTS
  N = 2
  K = 12
