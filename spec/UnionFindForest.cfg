SPECIFICATION Spec
CONSTANTS
  N = 4
  Depth = 3
  MaxArgs = 2
INVARIANTS Connected WeightIsSize IsPartition
