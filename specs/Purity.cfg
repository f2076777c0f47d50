CONSTANTS Slots = {1, 2} Cells = {1, 2} Values = {0, 1, 2} Kernels = {1, 2} MaxCalls = 3 Fresh = TRUE Keyed = TRUE
SPECIFICATION Spec
INVARIANTS SameAnswers SameValues
CHECK_DEADLOCK FALSE
