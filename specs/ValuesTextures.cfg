SPECIFICATION Spec
CONSTANTS Images = {0}  Customs = {0}  Textures = {0, 1, 2}  Contents = {1, 2}  NumCells = 3  Depth0 = 0
VIEW View
INVARIANTS Faithful NoSharing OwnStorage
PROPERTY Frame
CHECK_DEADLOCK FALSE
