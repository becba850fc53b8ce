SPECIFICATION Spec
INVARIANTS Split Whole Points
CONSTANTS
  N = 8
