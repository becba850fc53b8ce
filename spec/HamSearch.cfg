SPECIFICATION Spec
INVARIANT Partition
CONSTANTS
  N = 5
  MinDeg = 0
