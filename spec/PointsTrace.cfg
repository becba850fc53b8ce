SPECIFICATION TSpec
CONSTANTS
  Start <- PStart
  Fails <- PFails
  Apply <- PApply
