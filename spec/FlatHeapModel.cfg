SPECIFICATION Spec
CONSTANTS
  Half = 2
  Depth = 4
INVARIANTS Refines HighsExact
