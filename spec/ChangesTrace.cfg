SPECIFICATION TSpec
CONSTANTS
  Start <- CStart
  Fails <- CFails
  Apply <- CApply
