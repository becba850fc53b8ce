SPECIFICATION TSpec
CONSTANTS
  Start <- WStart
  Fails <- WFails
  Apply <- WApply
