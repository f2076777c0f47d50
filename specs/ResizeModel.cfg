SPECIFICATION Spec
CONSTANTS N = 14
INVARIANTS Covers Symmetric Whole Replicates Contiguous Constant Monotone
CHECK_DEADLOCK FALSE
