CONSTANTS F = 5  Types = {"Gf"}  Size = 2
SPECIFICATION Spec
INVARIANTS SameTerms Last LeadingTerms SPolys Replayed
PROPERTIES Settles
CHECK_DEADLOCK FALSE
