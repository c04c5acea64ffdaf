SPECIFICATION Spec
CONSTANTS N = 2
          Full = FALSE
          Rate = 41
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
