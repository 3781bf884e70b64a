CONSTANTS
  LimbSize = 134217728
  LastId <- Last
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
