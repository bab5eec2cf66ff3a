SPECIFICATION Spec
CONSTANTS
  Algo = "mod"
  Size = 5
  Cutoff = 1
  NPts = 2
  MaxGen = 2
  Coords = {0, 1}
  FitVals = {0, 2}
  FitShift = 1
  MaxMuts = 2
  Eager = TRUE
  InitMode = "same"
  Bug = "none"
INVARIANTS MonitorOK GeometryFollows FunctionsDistinct CachesApart
PROPERTY Monotone
CHECK_DEADLOCK FALSE
