CONSTANTS F = 3  Types = {"Gf"}  Shapes <- Small  Values <- All3
SPECIFICATION Spec
INVARIANTS Factors Transforms Echelon Skipped SameForm Bases ByMinors Replayed
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
