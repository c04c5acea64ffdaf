SPECIFICATION Spec
CONSTANTS K = 3
          Rate = 71
INVARIANTS Laws Export
PROPERTY PastKept
CHECK_DEADLOCK FALSE
