CONSTANTS
  Types = {"CALL", "RESULT"}
  Sers = {"i0", "i1"}
  MaxDicts = 1
  MaxMade = 2
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
PROPERTIES SeeingIsNothing C31
