SPECIFICATION FairReader
CONSTANTS
 MaxLevel = 2
 DefaultHL = 1
 MaxNodes = 7
 NKeys = 3
 SampleSize = 0
 Mut = {}
 Accept = TRUE
 Scenarios <- PassiveScenarios
 Shape <- S12
 OpKinds <- PassiveFew
 OpKeys = {1,2,3}
 Lvls = {1,2}
 InitKeys = {1,2,3}
PROPERTIES PassiveCompletes
CHECK_DEADLOCK FALSE
