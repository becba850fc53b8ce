SPECIFICATION Spec
INVARIANTS Kept_ Meaning Agree
CONSTANTS
  B = 2
  Clues <- MoreClues
  Given = 1
  Wide = TRUE
CHECK_DEADLOCK FALSE
