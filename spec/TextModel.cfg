SPECIFICATION Spec
INVARIANTS Sparse Dense Show
CONSTANTS
  N = 4
  Repeat = 1
