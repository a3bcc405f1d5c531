CONSTANTS Big = FALSE
SPECIFICATION Spec
INVARIANTS Injective Replayed
VIEW View
CHECK_DEADLOCK FALSE
