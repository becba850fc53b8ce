SPECIFICATION TSpec
CONSTANTS
  Start <- AUStart
  Fails <- AUFails
  Apply <- AUApply
