SPECIFICATION TSpec
CONSTANTS
  Start <- PRStart
  Fails <- PRFails
  Apply <- PRApply
