SPECIFICATION Spec
CONSTANTS
  N = 2
  Pris <- PrisQ
  Depth = 5
INVARIANT LowerBound
