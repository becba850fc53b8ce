SPECIFICATION Spec
INVARIANTS TopoIff ReachExact
CONSTANTS
  N = 3
  Loops = TRUE
