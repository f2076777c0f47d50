SPECIFICATION Spec
CONSTANTS W = 3  H = 2  Heights = {0, 32768, 65536}
INVARIANTS Shifts Flat Raised Mirrored Falls FallsUp UnitLength
CHECK_DEADLOCK FALSE
