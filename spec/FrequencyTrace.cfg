SPECIFICATION TSpec
CONSTANTS
  Start <- FQStart
  Fails <- FQFails
  Apply <- FQApply
