SPECIFICATION Spec
CONSTANTS
  Depth = 5
INVARIANT NestedIffClosable
