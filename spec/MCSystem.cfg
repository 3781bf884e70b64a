CONSTANTS
  Sess = {"1", "2"}
  Start = {"1", "2"}
  Procs = {"p"}
  Topics = {}
  MaxReq = 3
  MaxSess = 3
  MaxYield = 1
  MaxLeave = 0
  KeepLog = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NeverRefused NothingRefused Agreement
PROPERTIES Keeping C17 C32
