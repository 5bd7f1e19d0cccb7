SPECIFICATION Spec
INVARIANTS Confluence NoByteLost
PROPERTY Rests
CHECK_DEADLOCK FALSE
CONSTANTS
  Bytes = {0, 1, 2, 48, 128, 208}
  MaxLen = 5
  Bug = "none"
