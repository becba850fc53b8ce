SPECIFICATION Spec
INVARIANTS Sparse Dense Show
CONSTANTS
  N = 5
  Repeat = 0
