CONSTANTS
  Srv = {"1", "2"}
  Cli = {}
  Keys = {"k1", "k2"}
  CMethods = {"wampcra"}
  MaxHello = 3
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Justified States OwnChallenge
PROPERTIES Ends C18 C19 C20 C21 C22 C23 C24 C30
