SPECIFICATION Spec
CONSTANT
  N = 5
INVARIANTS TwoColour OddPart Degen
