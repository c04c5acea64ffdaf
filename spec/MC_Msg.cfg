SPECIFICATION Spec
CONSTANTS Depth = 2
INVARIANTS Arrives TwWr Export
CHECK_DEADLOCK FALSE
