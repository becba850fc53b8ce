SPECIFICATION Spec
INVARIANTS Verdict StaysSimple Included
CONSTANTS
  N = 0
