SPECIFICATION Spec
CONSTANTS
  N = 4
  Depth = 4
  MaxArgs = 2
INVARIANTS Connected WeightIsSize IsPartition
