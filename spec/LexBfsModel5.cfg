SPECIFICATION Spec
CONSTANT
  N = 5
INVARIANTS Lex Cells Elim Def
