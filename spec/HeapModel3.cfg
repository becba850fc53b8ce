SPECIFICATION Spec
INVARIANTS Agree Apart
CONSTANTS
  N = 2
  Depth = 3
