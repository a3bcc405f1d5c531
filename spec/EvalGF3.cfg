CONSTANTS F = 3  Types = {"Gf"}  Size = 1
SPECIFICATION Spec
INVARIANTS Partial Finished Homomorphism Generators Replayed
CHECK_DEADLOCK FALSE
