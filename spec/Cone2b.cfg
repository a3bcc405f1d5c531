CONSTANTS n = 2  K = 3  Coords <- Mixed  Types = {"Rational", "f64"} Polygon = FALSE
SPECIFICATION Spec
INVARIANTS Described Convex Complement Linear Orderless Replayed
CHECK_DEADLOCK FALSE
