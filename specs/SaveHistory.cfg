SPECIFICATION Spec
CONSTANTS Depth0 = 24
INVARIANTS Refused Whole Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
