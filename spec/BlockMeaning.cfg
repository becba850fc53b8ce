SPECIFICATION Spec
CONSTANT
  N = 5
INVARIANTS Meaning Two
