SPECIFICATION TSpec
CONSTANTS
  B = 3
  Start <- PStart
  Fails <- PFails
  Apply <- PApply
