SPECIFICATION Spec
CONSTANTS
  N = 3
  Depth = 5
INVARIANT Refines
