CONSTANTS F = 2  Types = {"Gf"}  Shapes <- ShapesA
SPECIFICATION Spec
INVARIANTS Accumulates Invertible SameRowSpace Undone Permutes Replayed
VIEW View
CHECK_DEADLOCK FALSE
