SPECIFICATION TSpec
CONSTANTS
  B = 3
  Start <- LStart
  Fails <- LFails
  Apply <- LApply
