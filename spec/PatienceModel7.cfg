SPECIFICATION Spec
INVARIANTS Meaning Links
CONSTANTS
  N = 7
  Val = 4
