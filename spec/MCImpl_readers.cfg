SPECIFICATION FairReader
CONSTANTS
 MaxLevel = 2
 DefaultHL = 1
 MaxNodes = 5
 NKeys = 2
 SampleSize = 0
 Mut = {}
 Accept = TRUE
 Scenarios <- AllScenarios
 Shape <- S12
 OpKinds <- ReaderFew
 OpKeys = {1,2}
 Lvls = {1,2}
 InitKeys = {1}
PROPERTIES ReaderCompletes
CHECK_DEADLOCK FALSE
