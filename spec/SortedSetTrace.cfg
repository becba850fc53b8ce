SPECIFICATION TSpec
CONSTANTS
  Start <- SSStart
  Fails <- SSFails
  Apply <- SSApply
