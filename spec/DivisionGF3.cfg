CONSTANTS F = 3  Types = {"Gf"}  Size = 2
SPECIFICATION Spec
INVARIANTS Sum Bounded Reduced AsOperators Confluent Replayed
PROPERTIES Terminates Descends
CHECK_DEADLOCK FALSE
