CONSTANTS n = 2  K = 3  Coords <- Unit  Types = {"Rational"} Polygon = FALSE
SPECIFICATION Spec
INVARIANTS Described Convex Complement Linear Orderless Replayed
CHECK_DEADLOCK FALSE
