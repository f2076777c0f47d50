SPECIFICATION Spec
CONSTANTS Images = {0, 1}  Customs = {0, 1}  Textures = {0}  Contents = {1, 2}  NumCells = 3  Depth0 = 0
VIEW View
INVARIANTS Faithful NoSharing OwnStorage
PROPERTY Frame
CHECK_DEADLOCK FALSE
