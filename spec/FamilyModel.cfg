SPECIFICATION Spec
INVARIANTS Small Ends
CONSTANTS
  N = 8
