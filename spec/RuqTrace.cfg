SPECIFICATION TraceSpec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Cap = 100
  NCap = 100
  MaxId = 65535
  Slack = 100
  Room = 512
