SPECIFICATION Spec
CONSTANTS N = 2
          Rate = 61
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
