SPECIFICATION Spec
CONSTANTS
  N = 2
  Pris <- PrisQ
  Depth = 4
INVARIANT LowerBound
