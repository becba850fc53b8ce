SPECIFICATION TSpec
CONSTANTS
  Start <- SVStart
  Fails <- SVFails
  Apply <- SVApply
