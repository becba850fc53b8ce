SPECIFICATION TSpec
CONSTANTS
  Start <- XYStart
  Fails <- XYFails
  Apply <- XYApply
