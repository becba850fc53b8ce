SPECIFICATION TSpec
CONSTANTS
  Start <- TSStart
  Fails <- TSFails
  Apply <- TSApply
