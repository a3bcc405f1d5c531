CONSTANTS Vars = 3  Top = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS Canonical Faithful Product Divisibility Laws Lattice Replayed
CHECK_DEADLOCK FALSE
