SPECIFICATION Spec
INVARIANTS Answer Safe Meaning
CONSTANTS
  N = 3
  K = 4
