CONSTANTS n = 4  K = 3  Coords <- Half  Types = {"Rational"} Polygon = FALSE
SPECIFICATION Spec
INVARIANTS Described Convex Complement Linear Orderless Replayed

CHECK_DEADLOCK FALSE
