SPECIFICATION Spec
INVARIANTS Kept Whole Counts
PROPERTY Fresh
CONSTANTS
  N = 6
  D = 4
