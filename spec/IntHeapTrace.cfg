SPECIFICATION TSpec
CONSTANTS
  Start <- IHStart
  Fails <- IHFails
  Apply <- IHApply
