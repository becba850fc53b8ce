SPECIFICATION TSpec
CONSTANTS
  Start <- HMStart
  Fails <- HMFails
  Apply <- HMApply
