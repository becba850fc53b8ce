SPECIFICATION Spec
CONSTANTS
  A = 3
  B = 4
INVARIANTS Matched Progress Certified EdgeTest
