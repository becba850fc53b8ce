SPECIFICATION TSpec
CONSTANTS
  Start <- PBegin
  Fails <- PFails
  Apply <- PApply
