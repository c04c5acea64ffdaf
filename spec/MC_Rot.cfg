SPECIFICATION Spec
CONSTANTS M = 2
          Mode = "single"
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
