SPECIFICATION Spec
CONSTANTS Depth0 = 5
INVARIANTS SameProgram DocumentedOrder RightSize EmitProgram
CHECK_DEADLOCK FALSE
