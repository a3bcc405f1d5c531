CONSTANTS F = 0  Types = {"Rational", "f64"}  Size = 1
INIT Init
NEXT Next
VIEW View
INVARIANTS Clean Refines Faithful Ring Replayed
CHECK_DEADLOCK FALSE
