SPECIFICATION GSpec
CONSTANTS
  Algo = "mod"
  Size = 7
  Cutoff = 2
  NPts = 3
  MaxGen = 3
  Coords = {0, 1, 2}
  FitVals = {0, 1, 2, 3, 4, 5, 6}
  FitShift = 4
  MaxMuts = 2
  Eager = TRUE
  InitMode = "same"
  AnySort = FALSE
  Bug = "none"
  GenerationChoices <- RandomGeneration
INVARIANTS MonitorOK EmitScenario
CHECK_DEADLOCK FALSE
