SPECIFICATION Spec
INVARIANTS TopoIff ReachExact
CONSTANTS
  N = 4
  Loops = FALSE
