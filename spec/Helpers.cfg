CONSTANTS MaxBox = 6  MaxNum = 70  MaxBase = 9  MaxLen = 4  MaxCells = 4
SPECIFICATION Spec
INVARIANTS NoRepeats BoxComplete DigitsValue MatsComplete MaxPrefix Replayed
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
