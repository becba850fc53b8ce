SPECIFICATION TSpec
CONSTANTS
  Start <- WKStart
  Fails <- WKFails
  Apply <- WKApply
