SPECIFICATION Spec
INVARIANTS Kept_ Meaning
CONSTANTS
  B = 2
  Few = 4
  Most = 4
  Slice = 200
  Rules = {"single", "align", "locked", "chain", "rectangle", "full"}
CHECK_DEADLOCK FALSE
