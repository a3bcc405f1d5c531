CONSTANTS MaxN = 4  MaxD = 4
INIT Init
NEXT Next
VIEW View
INVARIANTS Canonical Commutative Neutral Associative Ordered Powers Closed NaiveFits Replayed
CHECK_DEADLOCK FALSE
