SPECIFICATION TSpec
CONSTANTS
  Start <- GTStart
  Fails <- GTFails
  Apply <- GTApply
