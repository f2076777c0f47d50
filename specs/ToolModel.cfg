SPECIFICATION Spec
CONSTANTS Depth0 = 5
INVARIANTS OrderFree Harmless Total Emit
CHECK_DEADLOCK FALSE
