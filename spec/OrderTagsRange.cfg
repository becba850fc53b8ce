SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxTag = 31
  Mode = "range"
INVARIANTS Increasing InRange
