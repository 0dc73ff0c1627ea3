SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  B <- TB
  InpAt <- TInp
