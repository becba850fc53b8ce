SPECIFICATION TSpec
CONSTANTS
  Start <- SQStart
  Fails <- SQFails
  Apply <- SQApply
