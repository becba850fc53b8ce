SPECIFICATION Spec
INVARIANTS Repeats Good Unique Emit
CONSTANTS
  N = 9
  Val = 2
