SPECIFICATION Spec
INVARIANTS Ordered Exact Emit
CONSTANTS
  N = 5
  Val = 3
