CONSTANTS F = 2  Types = {"Gf"}  Size = 2
SPECIFICATION Spec
INVARIANTS Partial Finished Homomorphism Generators Replayed
CHECK_DEADLOCK FALSE
