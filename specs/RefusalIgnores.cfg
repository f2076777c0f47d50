CONSTANTS Others = {"a", "b"} MaxSteps = 5 MaxCalls = 4 Fault = "ignores"
SPECIFICATION Spec
INVARIANTS TypeOK Honest Telling Usable Alone NothingLost
CHECK_DEADLOCK FALSE
