CONSTANTS n = 3  K = 3  Coords <- Half  Types = {"Rational", "f64"} Polygon = FALSE
SPECIFICATION Spec
INVARIANTS Described Convex Complement Linear Orderless Replayed
CHECK_DEADLOCK FALSE
