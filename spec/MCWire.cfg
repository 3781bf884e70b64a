CONSTANTS
  Types = {"HELLO", "WELCOME", "ABORT", "CHALLENGE", "AUTHENTICATE", "GOODBYE", "ERROR", "PUBLISH", "PUBLISHED", "SUBSCRIBE", "SUBSCRIBED", "UNSUBSCRIBE", "UNSUBSCRIBED", "EVENT", "CALL", "CANCEL", "RESULT", "REGISTER", "REGISTERED", "UNREGISTER", "UNREGISTERED", "INVOCATION", "INTERRUPT", "YIELD"}
  MaxSpoil = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Inverse Faithful Unambiguous
PROPERTIES C25 C26
