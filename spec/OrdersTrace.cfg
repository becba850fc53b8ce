SPECIFICATION TSpec
CONSTANTS
  Start <- ORStart
  Fails <- ORFails
  Apply <- ORApply
