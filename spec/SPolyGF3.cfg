CONSTANTS F = 3  Types = {"Gf"}  Size = 1
SPECIFICATION Spec
INVARIANTS SameTerms Last LeadingTerms SPolys Replayed
PROPERTIES Settles
CHECK_DEADLOCK FALSE
