CONSTANTS F = 3  Types = {"Gf"}  Size = 1
INIT Init
NEXT Next
VIEW View
INVARIANTS Clean Refines Faithful Ring Replayed
CHECK_DEADLOCK FALSE
