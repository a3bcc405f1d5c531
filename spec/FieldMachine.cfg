CONSTANTS
    N = 6
    K = 8
SPECIFICATION Spec
INVARIANTS PowerOK LawsOK Replayed
CHECK_DEADLOCK FALSE
