CONSTANTS F = 2  Types = {}  Size = 1  D = 5  Free = TRUE
SPECIFICATION Spec
INVARIANTS NoZeros GroebnerAfter Generates Unique Members NormalForms
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
