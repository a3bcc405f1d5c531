CONSTANTS F = 2  Types = {"Gf"}  Size = 1
SPECIFICATION Spec
INVARIANTS Sum Bounded Reduced AsOperators Confluent Replayed
PROPERTIES Terminates Descends
CHECK_DEADLOCK FALSE
