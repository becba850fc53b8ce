SPECIFICATION Spec
CONSTANT
  N = 5
INVARIANTS Blocks Oriented
