SPECIFICATION TSpec
CONSTANTS
  Start <- MAStart
  Fails <- MAFails
  Apply <- MAApply
