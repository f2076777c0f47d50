SPECIFICATION Spec
CONSTANTS Threads = 3 Ops = 2 Guarded = TRUE Scratch = FALSE Emitting = FALSE
INVARIANTS Alone NoRace
PROPERTY Ends
CHECK_DEADLOCK TRUE
