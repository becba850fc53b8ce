SPECIFICATION Spec
INVARIANTS Meaning Agrees Emit
CONSTANTS
  N = 3
  Val = 3
