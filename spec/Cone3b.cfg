CONSTANTS n = 3  K = 2  Coords <- Unit  Types = {"Rational", "f64"} Polygon = FALSE
SPECIFICATION Spec
INVARIANTS Described Convex Complement Linear Orderless Replayed
CHECK_DEADLOCK FALSE
