CONSTANTS F = 3  Types = {"Gf"}  Size = 3  D = 5
SPECIFICATION Spec
INVARIANTS Decides Semantics Replayed
CHECK_DEADLOCK FALSE
