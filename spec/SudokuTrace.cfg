SPECIFICATION TSpec
CONSTANTS
  B = 3
  Start <- SStart
  Fails <- SFails
  Apply <- SApply
