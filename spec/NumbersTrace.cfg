SPECIFICATION TSpec
CONSTANTS
  Start <- NStart
  Fails <- NFails
  Apply <- NApply
