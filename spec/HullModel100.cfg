SPECIFICATION Spec
INVARIANTS InOrder Convex
CONSTANT Top = 100
CHECK_DEADLOCK FALSE
