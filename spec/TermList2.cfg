CONSTANTS F = 2  Types = {"Gf"}  Size = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS Clean Refines Faithful Ring Replayed
CHECK_DEADLOCK FALSE
