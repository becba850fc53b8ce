SPECIFICATION Spec
INVARIANTS IsOne Counted Formula
PROPERTY Rises
CONSTANTS
  S = 3
  N = 5
