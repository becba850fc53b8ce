SPECIFICATION TSpec
CONSTANTS
  Start <- BIStart
  Fails <- BIFails
  Apply <- BIApply
