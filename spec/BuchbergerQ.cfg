CONSTANTS F = 0  Types = {"Rational"}  Size = 2  D = 5  Free = FALSE
SPECIFICATION Spec
INVARIANTS NoZeros GroebnerAfter Generates Unique Members NormalForms Replayed
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
