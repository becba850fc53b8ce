SPECIFICATION TSpec
CONSTANTS
  Start <- MEStart
  Fails <- MEFails
  Apply <- MEApply
