CONSTANTS F = 2  Types = {"Gf"}  Size = 1  D = 5  Free = FALSE
SPECIFICATION Spec
INVARIANTS NoZeros GroebnerAfter Generates Unique Members NormalForms Replayed
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
