CONSTANTS F = 0  Types = {"Rational", "f64"}  Shapes <- Small  Values <- ThreeQ
SPECIFICATION Spec
INVARIANTS Factors Transforms Echelon Skipped SameForm Bases ByMinors Replayed
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
