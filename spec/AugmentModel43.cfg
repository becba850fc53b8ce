SPECIFICATION Spec
CONSTANTS
  A = 4
  B = 3
INVARIANTS Matched Progress Certified EdgeTest
