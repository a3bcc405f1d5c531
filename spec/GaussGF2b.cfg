CONSTANTS F = 2  Types = {"Gf"}  Shapes <- Square3  Values <- All2
SPECIFICATION Spec
INVARIANTS Factors Transforms Echelon Skipped SameForm Bases ByMinors Replayed
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
