CONSTANTS Jobs = 2 Threads = 2 Atomic = TRUE Overlap = FALSE Joining = TRUE Emitting = TRUE
INIT Init
NEXT Next
INVARIANT ExactlyOnce
INVARIANT Distinct
INVARIANT RaceFree
INVARIANT NobodyLeft
INVARIANT Emit
CHECK_DEADLOCK FALSE
