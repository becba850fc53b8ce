SPECIFICATION Spec
CONSTANTS
  N = 2
  Keys = {1}
  Depth = 6
INVARIANT PendingConsistent
