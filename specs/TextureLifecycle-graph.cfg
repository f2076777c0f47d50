SPECIFICATION Spec
CONSTANTS Universe = "small"  Slots = {0}  Depth0 = 0
VIEW AllButHistory
INVARIANTS Invariants FailureKeeps SaveNeedsData
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
