CONSTANTS Length = 3
MaxOps = 6
Room = 4
SPECIFICATION Spec
INVARIANTS Same SameBytes RefusalKept
CHECK_DEADLOCK FALSE
