SPECIFICATION Spec
INVARIANTS IsMatching Bound Cover Dilworth
CONSTANTS
  N = 4
