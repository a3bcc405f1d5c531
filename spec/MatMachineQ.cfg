CONSTANTS F = 0  Types = {"Rational", "f64", "f32"}  Ns = {1, 2}  Values <- SomeQ
SPECIFICATION Spec
INVARIANTS Associative Distributive Additive Scalars Units Zeros Transposes Columns Rows Norms Shapes Replayed

CHECK_DEADLOCK FALSE
