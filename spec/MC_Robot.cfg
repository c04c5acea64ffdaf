SPECIFICATION Spec
CONSTANTS K = 2
INVARIANTS Pairs OneSided Export
VIEW View
CHECK_DEADLOCK FALSE
