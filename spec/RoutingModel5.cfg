SPECIFICATION Spec
INVARIANTS Reversed Active Closer First
CONSTANTS
  N = 5
  K = 3
