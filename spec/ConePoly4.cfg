CONSTANTS n = 4  K = 5  Coords <- Half  Types = {"Rational"} Polygon = TRUE
SPECIFICATION Spec
INVARIANTS Described Convex Complement Linear Orderless Replayed

CHECK_DEADLOCK FALSE
