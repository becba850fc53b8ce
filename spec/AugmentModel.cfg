SPECIFICATION Spec
CONSTANTS
  A = 3
  B = 3
INVARIANTS Matched Progress Certified EdgeTest
