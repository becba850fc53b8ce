SPECIFICATION TSpec
CONSTANTS
  Start <- YStart
  Fails <- YFails
  Apply <- YApply
