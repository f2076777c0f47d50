SPECIFICATION SpecSim
CONSTANTS Depth0 = 8
INVARIANTS SameProgram DocumentedOrder RightSize EmitProgram
CHECK_DEADLOCK FALSE
