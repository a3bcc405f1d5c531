CONSTANTS F = 0  Types = {"Rational", "f64"}  Size = 1
SPECIFICATION Spec
INVARIANTS Partial Finished Homomorphism Generators Replayed
CHECK_DEADLOCK FALSE
