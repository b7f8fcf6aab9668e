SPECIFICATION Spec
CONSTANTS
  MaxTypes = 5
  MaxOps = 3
  MaxCalls = 5
CHECK_DEADLOCK FALSE
