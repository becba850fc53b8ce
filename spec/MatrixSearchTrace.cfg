SPECIFICATION TSpec
CONSTANTS
  Start <- MXStart
  Fails <- MXFails
  Apply <- MXApply
