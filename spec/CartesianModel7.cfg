SPECIFICATION Spec
INVARIANTS Ordered Exact
CONSTANTS
  N = 7
  Val = 4
