CONSTANTS MaxBox = 13  MaxNum = 600  MaxBase = 17  MaxLen = 5  MaxCells = 5
SPECIFICATION Spec
INVARIANTS NoRepeats BoxComplete DigitsValue MatsComplete MaxPrefix Replayed
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
