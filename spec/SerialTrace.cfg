SPECIFICATION SSpec
INVARIANT Explained
CONSTRAINT NotYet
CHECK_DEADLOCK FALSE
CONSTANTS
  Cap = 100
  NCap = 100
  MaxId = 65535
  Slack = 100
  Room = 512
  IdMax = 65535
  NoteCap = 100
  Exact = FALSE
  Policies = {"burst", "delay", "skip"}
  Bug = "none"
