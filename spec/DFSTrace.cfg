SPECIFICATION TSpec
CONSTANTS
  Start <- DFStart
  Fails <- DFFails
  Apply <- DFApply
