SPECIFICATION Spec
CONSTANTS Rate = 1
INVARIANTS Laws Sharp Export
CHECK_DEADLOCK FALSE
