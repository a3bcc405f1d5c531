CONSTANTS F = 0  Types = {"Rational", "f64"}  Shapes <- ShapesB
SPECIFICATION Spec
INVARIANTS Accumulates Invertible SameRowSpace Undone Permutes Replayed
VIEW View
CHECK_DEADLOCK FALSE
