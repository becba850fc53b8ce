SPECIFICATION Spec
CONSTANT
  N = 4
INVARIANTS Blocks Oriented
