SPECIFICATION Spec
CONSTANTS
  Longest = 6
INVARIANTS Agree
