SPECIFICATION Spec
CONSTANTS N = 2
          Rate = 41
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
