CONSTANT
  MaxSpoil = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Inverse Faithful VerdictRight
PROPERTIES C27
