SPECIFICATION Spec
CONSTANTS NJ = 3
          NC = 2
          Rate = 97
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
