SPECIFICATION TSpec
CONSTANTS
 MaxLevel = 16
 DefaultHL = 3
 MaxNodes = 14
 NKeys = 5
 Mut = {}
 Accept = FALSE
 Scenarios = {}
VIEW TView
INVARIANT Agrees
CHECK_DEADLOCK FALSE
