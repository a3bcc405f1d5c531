CONSTANTS F = 3  Types = {"Gf"}  Size = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS Clean Refines Faithful Ring  
CHECK_DEADLOCK FALSE
