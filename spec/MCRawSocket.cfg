CONSTANTS
  Protocols = {0, 1, 2, 3, 15}
  Sizes = {0, 1, 511, 512, 513, 1023, 1024, 65535, 65536, 16777215, 16777216, 16777217, 33554431}
  Lengths = {0, 1, 255, 256, 512, 513, 1024, 65535, 65536, 16777215, 16777216}
  MaxFrames = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InOrder Complete NoneTooLarge SameSerializer Formats
