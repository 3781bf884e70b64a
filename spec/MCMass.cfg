CONSTANTS
  Kind = "dealer"
  Max = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Counts Kept
