CONSTANTS F = 3  Types = {"Gf"}  Size = 3  D = 6  Free = FALSE
SPECIFICATION Spec
INVARIANTS NoZeros GroebnerAfter Generates Unique Members NormalForms Replayed
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
