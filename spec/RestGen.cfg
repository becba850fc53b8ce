SPECIFICATION Spec
INVARIANTS Kept_ Emit
CONSTANTS
  B = 3
  Given = 2
  Slice = 11
CHECK_DEADLOCK FALSE
