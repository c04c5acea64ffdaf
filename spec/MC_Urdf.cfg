SPECIFICATION Spec
CONSTANTS Mode = "tree"
          N = 3
          Rate = 11
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
