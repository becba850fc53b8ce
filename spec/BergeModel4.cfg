SPECIFICATION Spec
CONSTANT
  N = 4
INVARIANTS Sound Exact Stay
