SPECIFICATION Spec
CONSTANTS Threads = 2 Ops = 1 Guarded = FALSE Scratch = FALSE Emitting = FALSE
INVARIANTS Alone NoRace
CHECK_DEADLOCK TRUE
