SPECIFICATION Spec
CONSTANTS
 MaxLevel = 2
 DefaultHL = 1
 MaxNodes = 5
 NKeys = 2
 SampleSize = 0
 Mut = {}
 Accept = TRUE
 Scenarios <- AllScenarios
 Shape <- S11
 OpKinds <- WithPanic
 OpKeys = {1,2}
 Lvls = {1,2}
 InitKeys = {1,2}
INVARIANTS Linearizable NoCrash Sorted Quiet LenNonNegative HlCovers Sublists OneNodePerKey LockOrder HoldsNothing OnlyVictim Linked
PROPERTIES Frozen Monotone TakenStays
CHECK_DEADLOCK TRUE
