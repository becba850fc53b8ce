SPECIFICATION Spec
CONSTANTS
  Rim = {3, 4, 5}
  Grow = 7
  Swaps = 1
INVARIANTS Disk Reaches Emit
CHECK_DEADLOCK FALSE
