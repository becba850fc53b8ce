SPECIFICATION Spec
INVARIANTS Meaning Links Emit
CONSTANTS
  N = 5
  Val = 4
