CONSTANT N = 18
SPECIFICATION Spec
INVARIANTS KeepsDivisors GcdOK LcmOK DivOK OrderOK Replayed
PROPERTIES Terminates Shrinks
CHECK_DEADLOCK FALSE
