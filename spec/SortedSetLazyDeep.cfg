SPECIFICATION Spec
CONSTANTS
  N = 2
  Keys = {1}
  Depth = 7
INVARIANT PendingConsistent
