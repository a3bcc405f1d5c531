CONSTANTS F = 3  Types = {"Gf"}  Shapes <- ShapesB
SPECIFICATION Spec
INVARIANTS Accumulates Invertible SameRowSpace Undone Permutes Replayed
VIEW View
CHECK_DEADLOCK FALSE
