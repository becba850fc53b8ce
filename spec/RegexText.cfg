SPECIFICATION Spec
CONSTANTS
  Longest = 5
INVARIANTS Agree
