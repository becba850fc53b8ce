SPECIFICATION Spec
INVARIANTS Agree Apart Emit
CONSTANTS
  N = 2
  Depth = 2
