SPECIFICATION Spec
INVARIANTS Exact NotAlone
CONSTANTS
  N = 9
