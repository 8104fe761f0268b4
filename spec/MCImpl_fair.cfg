SPECIFICATION FairAll
CONSTANTS
 MaxLevel = 2
 DefaultHL = 1
 MaxNodes = 5
 NKeys = 2
 SampleSize = 0
 Mut = {}
 Accept = TRUE
 Scenarios <- AllScenarios
 Shape <- S11
 OpKinds <- AllAll
 OpKeys = {1,2}
 Lvls = {1,2}
 InitKeys = {1}
PROPERTIES AllComplete
CHECK_DEADLOCK FALSE
