SPECIFICATION Spec
CONSTANTS
  N = 3
  Depth = 6
INVARIANT Refines
