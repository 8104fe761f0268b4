SPECIFICATION FairReader
CONSTANTS
 MaxLevel = 2
 DefaultHL = 1
 MaxNodes = 7
 NKeys = 4
 SampleSize = 0
 Mut = {}
 Accept = TRUE
 Scenarios <- FarScenarios
 Shape <- S11
 OpKinds <- FarKinds
 OpKeys = {2,4}
 Lvls = {1,2}
 InitKeys = {2,3,4}
PROPERTIES PassiveCompletes
CHECK_DEADLOCK FALSE
