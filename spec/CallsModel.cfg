SPECIFICATION Spec
INVARIANTS Held Emit
CONSTANTS
  Steps = 3
  CallsMade = 2
  Share = FALSE
  InPlace = FALSE
  Remember = FALSE
CHECK_DEADLOCK FALSE
