SPECIFICATION Spec
CONSTANTS Norms = {9, 25}
          Kind = "cones"
          Rate = 61
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
