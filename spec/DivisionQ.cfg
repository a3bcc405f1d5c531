CONSTANTS F = 0  Types = {"Rational"}  Size = 2
SPECIFICATION Spec
INVARIANTS Sum Bounded Reduced AsOperators Confluent Replayed
PROPERTIES Terminates Descends
CHECK_DEADLOCK FALSE
