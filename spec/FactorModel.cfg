SPECIFICATION Spec
INVARIANTS Repeats Good Unique Emit
CONSTANTS
  N = 6
  Val = 3
