SPECIFICATION Spec
CONSTANTS Depth = 3
          Rate = 2003
INVARIANTS CellsKept Export
PROPERTIES OthersKept QueriesKeep
CHECK_DEADLOCK FALSE
