SPECIFICATION Spec
INVARIANTS Reversed Active Closer First
CONSTANTS
  N = 4
  K = 4
