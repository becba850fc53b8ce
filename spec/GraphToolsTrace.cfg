SPECIFICATION TSpec
CONSTANTS
  Start <- TStart
  Fails <- TFails
  Apply <- TApply
