CONSTANTS F = 0  Types = {}  Size = 5  D = 5  Free = TRUE
SPECIFICATION Spec
INVARIANTS NoZeros GroebnerAfter Generates Unique Members NormalForms
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
