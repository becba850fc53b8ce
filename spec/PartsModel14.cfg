SPECIFICATION Spec
INVARIANTS Member Counted Twice
PROPERTY Steps
CONSTANTS
  N = 14
