CONSTANTS Jobs = 3 Threads = 2 Atomic = TRUE Overlap = TRUE Joining = TRUE Emitting = FALSE
INIT Init
NEXT Next
INVARIANT ExactlyOnce
INVARIANT Distinct
INVARIANT RaceFree
INVARIANT NobodyLeft

CHECK_DEADLOCK FALSE
