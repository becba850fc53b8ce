SPECIFICATION Spec
CONSTANTS
  Keys = 4
  Slots = 3
  Depth = 8
INVARIANTS Contract Sharp
