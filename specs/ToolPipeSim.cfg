SPECIFICATION SpecSim
CONSTANTS Depth0 = 10
INVARIANTS SameProgram DocumentedOrder RightSize EmitProgram
CHECK_DEADLOCK FALSE
