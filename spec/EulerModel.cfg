SPECIFICATION Spec
INVARIANTS Offline Steps Online Emit
CONSTANTS
  N = 6
