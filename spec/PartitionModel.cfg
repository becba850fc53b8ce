SPECIFICATION Spec
CONSTANTS
  N = 3
  Depth = 3
INVARIANTS Consistent Coarsest
