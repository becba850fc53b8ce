SPECIFICATION TSpec
CONSTANTS
  Start <- GFStart
  Fails <- GFFails
  Apply <- GFApply
