SPECIFICATION Spec
CONSTANTS
  N = 4
  Depth = 5
INVARIANT Refines
