SPECIFICATION TSpec
CONSTANTS
  Start <- AStart
  Fails <- AFails
  Apply <- AApply
