CONSTANTS Jobs = 4 Threads = 3 Atomic = TRUE Overlap = FALSE Joining = TRUE Emitting = FALSE
SPECIFICATION Spec
INVARIANT ExactlyOnce
INVARIANT Distinct
INVARIANT RaceFree
INVARIANT NobodyLeft
PROPERTY Ends
CHECK_DEADLOCK FALSE
