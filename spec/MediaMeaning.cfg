SPECIFICATION Spec
INVARIANTS Cubes Axioms Graded
CONSTANTS
  N = 5
  L = 3
