CONSTANTS
  Sess = {"1", "2"}
  Procs = {"p"}
  Reqs = {"7"}
  MaxReg = 2
  MaxInv = 2
  MaxGone = 1
  MaxLog = 1000
SPECIFICATION Spec
VIEW View
CONSTRAINT Short
CHECK_DEADLOCK FALSE
INVARIANTS Registrations Answerables Attachments Tidy OneOpen
PROPERTIES Scoped C01 C02 C03 C04 C05 C06 C11 C12
