CONSTANTS F = 2  Types = {"Gf"}  Size = 1  D = 5
SPECIFICATION Spec
INVARIANTS Decides Semantics Replayed
CHECK_DEADLOCK FALSE
