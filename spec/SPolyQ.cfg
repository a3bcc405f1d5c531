CONSTANTS F = 0  Types = {"Rational"}  Size = 1
SPECIFICATION Spec
INVARIANTS SameTerms Last LeadingTerms SPolys Replayed
PROPERTIES Settles
CHECK_DEADLOCK FALSE
