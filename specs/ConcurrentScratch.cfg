SPECIFICATION Spec
CONSTANTS Threads = 2 Ops = 1 Guarded = TRUE Scratch = TRUE Emitting = FALSE
INVARIANTS Alone NoRace
CHECK_DEADLOCK TRUE
