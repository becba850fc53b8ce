SPECIFICATION Spec
INVARIANTS Known Frames Proper Emit
CONSTANTS
  B = 3
  Free = {1, 2, 28}
  Tried = {1, 2, 3}
  Ruled = {1, 2}
  Depth = 3
  Branches = 2
  Copies = FALSE
CHECK_DEADLOCK FALSE
