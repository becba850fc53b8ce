SPECIFICATION TSpec
CONSTANTS
  Start <- BQStart
  Fails <- BQFails
  Apply <- BQApply
