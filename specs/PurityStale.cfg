CONSTANTS Slots = {1, 2} Cells = {1, 2} Values = {0, 1, 2} Kernels = {1, 2} MaxCalls = 3 Fresh = TRUE Keyed = FALSE
SPECIFICATION Spec
INVARIANTS SameAnswers
CHECK_DEADLOCK FALSE
