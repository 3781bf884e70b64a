CONSTANTS
  Sess = {"1", "2"}
  Topic = {"p", "q"}
  MaxSub = 3
  MaxGone = 1
  MaxLog = 1000
SPECIFICATION Spec
VIEW View
CONSTRAINT Short
CHECK_DEADLOCK FALSE
INVARIANTS Subscriptions Attachments Tidy Distinct
PROPERTIES C07 C08 C09 C10 C11 C12
