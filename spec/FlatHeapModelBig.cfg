SPECIFICATION Spec
CONSTANTS
  Half = 3
  Depth = 7
INVARIANTS Refines HighsExact
VIEW View
