SPECIFICATION SpecSim
CONSTANTS Depth0 = 9
INVARIANTS OrderFree Total Emit
CHECK_DEADLOCK FALSE
