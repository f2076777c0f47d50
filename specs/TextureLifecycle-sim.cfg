SPECIFICATION SpecSim
CONSTANTS Universe = "wide"  Slots = {0, 1}  Depth0 = 16
INVARIANTS Invariants FailureKeeps SaveNeedsData EmitHistory
CHECK_DEADLOCK FALSE
