SPECIFICATION Spec
CONSTANTS N = 2
          B = 3
          E = 2
INVARIANTS Laws Export
PROPERTY Finishes
CHECK_DEADLOCK FALSE
