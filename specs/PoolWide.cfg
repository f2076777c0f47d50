CONSTANTS Jobs = 2 Threads = 4 Atomic = TRUE Overlap = FALSE Joining = TRUE Emitting = FALSE
SPECIFICATION Spec
INVARIANT ExactlyOnce
INVARIANT Distinct
INVARIANT RaceFree
INVARIANT NobodyLeft
PROPERTY Ends
CHECK_DEADLOCK FALSE
