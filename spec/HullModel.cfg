SPECIFICATION Spec
INVARIANTS InOrder Convex
CONSTANT Top = 50
CHECK_DEADLOCK FALSE
