SPECIFICATION Spec
CONSTANTS
  N = 4
  Loops = FALSE
INVARIANTS Complete Nested Strong Topological
