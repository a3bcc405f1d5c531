CONSTANTS F = 3  Types = {"Gf"}  Size = 3
SPECIFICATION Spec
INVARIANTS Sum Bounded Reduced AsOperators Confluent  
PROPERTIES Terminates Descends
CHECK_DEADLOCK FALSE
