SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxTag = 15
  Mode = "range"
INVARIANTS Increasing InRange
