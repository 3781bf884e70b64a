CONSTANTS
  CallReqs = {"1", "2"}
  RegReqs = {"1", "2"}
  PubReqs = {}
  SubReqs = {}
  Regs = {"1", "2"}
  Subs = {}
  Invs = {"1"}
  MaxLog = 1000
SPECIFICATION Spec
VIEW View
CONSTRAINT Short
CHECK_DEADLOCK FALSE
INVARIANTS Requested Live
PROPERTIES Scoped FailedIsNothing C13 C14 C15 C16
