SPECIFICATION Spec
INVARIANTS Shown Emit
CONSTANTS
  B = 2
  Slip = FALSE
CHECK_DEADLOCK FALSE
