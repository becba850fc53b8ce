SPECIFICATION TSpec
CONSTANTS
  Start <- GOStart
  Fails <- GOFails
  Apply <- GOApply
