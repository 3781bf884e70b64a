CONSTANTS
  Sess = {"1", "2"}
  Start = {"1", "2"}
  Procs = {"p"}
  Topics = {}
  MaxReq = 3
  MaxSess = 3
  MaxYield = 1
  MaxLeave = 0
  KeepLog = FALSE
SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
INVARIANTS NeverRefused NothingRefused Agreement
PROPERTIES Drains Served
