SPECIFICATION Spec
INVARIANTS Least Attained Monotone Emit
CONSTANTS
  Most = 4
  Long = 2
  Gaps = {0, 1}
  Targets = {2, 4}
CHECK_DEADLOCK FALSE
