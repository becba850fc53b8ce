SPECIFICATION Spec
CONSTANT
  N = 4
  W = 2
INVARIANTS Partial Right Judge
