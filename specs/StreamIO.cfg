CONSTANTS Length = 5
MaxOps = 5
Room = 1000
SPECIFICATION Spec
INVARIANTS Same SameBytes RefusalKept
CHECK_DEADLOCK FALSE
