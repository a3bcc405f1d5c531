CONSTANTS F = 3  Types = {"Gf"}  Ns = {1, 2}  Values <- Some3
SPECIFICATION Spec
INVARIANTS Associative Distributive Additive Scalars Units Zeros Transposes Columns Rows Norms Shapes Replayed

CHECK_DEADLOCK FALSE
