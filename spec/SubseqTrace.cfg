SPECIFICATION TSpec
CONSTANTS
  Start <- SStart
  Fails <- SFails
  Apply <- SApply
