SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxTag = 15
  Mode = "all"
INVARIANTS Increasing InRange
