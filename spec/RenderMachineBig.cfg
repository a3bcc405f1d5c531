CONSTANTS Big = TRUE
SPECIFICATION Spec
INVARIANTS Injective Replayed
VIEW View
CHECK_DEADLOCK FALSE
