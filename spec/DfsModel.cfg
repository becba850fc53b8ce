SPECIFICATION Spec
CONSTANTS
  N = 3
  Loops = TRUE
INVARIANTS Complete Nested Strong Topological
