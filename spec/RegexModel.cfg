SPECIFICATION Spec
CONSTANTS
  Size = 3
INVARIANTS Agree RoundTrip
