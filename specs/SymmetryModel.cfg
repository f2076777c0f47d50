CONSTANTS MaxW = 4  MaxH = 3  MaxLen = 6
SPECIFICATION Spec
INVARIANTS Agrees Permutation
CHECK_DEADLOCK FALSE
