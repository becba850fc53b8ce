SPECIFICATION TSpec
CONSTANTS
  B = 3
  Start <- RStart
  Fails <- RFails
  Apply <- RApply
