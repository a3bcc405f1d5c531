INIT Init
NEXT Next
INVARIANT Agree
CONSTANT N = 300
CHECK_DEADLOCK FALSE
