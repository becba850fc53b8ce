SPECIFICATION Spec
INVARIANT Partition
CONSTANTS
  N = 6
  MinDeg = 3
