SPECIFICATION Spec
CONSTANTS MaxPiece = 4  MaxPieces = 5  Buffers = {0, 1, 3, 7, 30}
INVARIANTS RightResult SuccessIsComplete Bounded
CHECK_DEADLOCK FALSE
