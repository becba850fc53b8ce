SPECIFICATION TSpec
CONSTANTS
  Start <- HAStart
  Fails <- HAFails
  Apply <- HAApply
