SPECIFICATION TSpec
CONSTANTS
  Start <- UFStart
  Fails <- UFFails
  Apply <- UFApply
