CONSTANTS Vars = 3  Top = 2
SPECIFICATION Spec
INVARIANTS Compatible Antisymmetric Total OneLeast Graded Monotone Transitive WeightOrder Examples Replayed
CHECK_DEADLOCK FALSE
