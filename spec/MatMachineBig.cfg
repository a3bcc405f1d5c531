CONSTANTS F = 3  Types = {}  Ns = {1, 2}  Values <- All3
SPECIFICATION Spec
INVARIANTS Associative Distributive Additive Scalars Units Zeros Transposes Columns Rows Norms Shapes Replayed

CHECK_DEADLOCK FALSE
