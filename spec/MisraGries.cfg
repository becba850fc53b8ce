SPECIFICATION Spec
CONSTANTS
  Keys = 3
  Slots = 2
  Depth = 7
INVARIANTS Contract Sharp
