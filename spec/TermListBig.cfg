CONSTANTS F = 2  Types = {"Gf"}  Size = 3
INIT Init
NEXT Next
VIEW View
INVARIANTS Clean Refines Faithful Ring  
CHECK_DEADLOCK FALSE
