SPECIFICATION Spec
INVARIANTS Least Attained Monotone Emit
CONSTANTS
  Most = 4
  Long = 2
  Gaps = {0, 1, 2}
  Targets = {2, 4, 5}
CHECK_DEADLOCK FALSE
