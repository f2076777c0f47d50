SPECIFICATION SpecSim
CONSTANTS Images = {0, 1, 2}  Customs = {0, 1, 2}  Textures = {0, 1}  Contents = {1, 2}  NumCells = 9  Depth0 = 30
INVARIANTS Faithful NoSharing OwnStorage Emit
CHECK_DEADLOCK FALSE
