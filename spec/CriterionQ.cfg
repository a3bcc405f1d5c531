CONSTANTS F = 0  Types = {"Rational"}  Size = 2  D = 4
SPECIFICATION Spec
INVARIANTS Decides Semantics Replayed
CHECK_DEADLOCK FALSE
