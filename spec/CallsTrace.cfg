SPECIFICATION TSpec
CONSTANTS
  Start <- KStart
  Fails <- KFails
  Apply <- KApply
