SPECIFICATION Spec
CONSTANTS
  N = 4
  Depth = 3
INVARIANTS Consistent Coarsest
