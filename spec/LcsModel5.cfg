SPECIFICATION Spec
INVARIANTS Meaning Agrees Emit
CONSTANTS
  N = 5
  Val = 2
