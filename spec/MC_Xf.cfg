SPECIFICATION Spec
CONSTANTS Depth = 3
          Rate = 101
INVARIANTS Group Export
CHECK_DEADLOCK FALSE
