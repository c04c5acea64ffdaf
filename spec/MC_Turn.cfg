SPECIFICATION Spec
CONSTANTS Turn = 8
          Mode = "near"
          N = 1
          Rate = 11
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
