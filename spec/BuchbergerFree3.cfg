CONSTANTS F = 3  Types = {}  Size = 4  D = 6  Free = TRUE
SPECIFICATION Spec
INVARIANTS NoZeros GroebnerAfter Generates Unique Members NormalForms
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
