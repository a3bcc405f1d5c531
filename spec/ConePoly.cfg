CONSTANTS n = 3  K = 5  Coords <- Unit  Types = {"Rational"} Polygon = TRUE
SPECIFICATION Spec
INVARIANTS Described Convex Complement Linear Orderless Replayed

CHECK_DEADLOCK FALSE
