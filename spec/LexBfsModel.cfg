SPECIFICATION Spec
CONSTANT
  N = 4
INVARIANTS Lex Cells Elim Def
