SPECIFICATION Spec
CONSTANTS Threads = 2 Ops = 1 Guarded = TRUE Scratch = FALSE Emitting = TRUE
INVARIANT Emit
CHECK_DEADLOCK TRUE
