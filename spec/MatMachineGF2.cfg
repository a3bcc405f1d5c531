CONSTANTS F = 2  Types = {"Gf"}  Ns = {0, 1, 2}  Values <- All2
SPECIFICATION Spec
INVARIANTS Associative Distributive Additive Scalars Units Zeros Transposes Columns Rows Norms Shapes Replayed

CHECK_DEADLOCK FALSE
