CONSTANTS Slots = {1, 2} Storage = {1, 2, 3, 4, 5, 6} MaxTemp = 3 MaxCalls = 5 Leaky = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK NothingUnowned OneOwner Quiet NothingLeft
CHECK_DEADLOCK FALSE
