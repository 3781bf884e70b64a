CONSTANTS
  LimbSize = 3
  LastId <- Last
  Gens = {"1", "2", "3"}
  MaxAsked = 11
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Counts InRange NoRepeat SuccPred
PROPERTIES Independent
