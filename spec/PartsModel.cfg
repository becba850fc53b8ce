SPECIFICATION Spec
INVARIANTS Member Counted Twice Emit
PROPERTY Steps
CONSTANTS
  N = 9
