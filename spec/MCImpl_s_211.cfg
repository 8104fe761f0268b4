SPECIFICATION Spec
CONSTANTS
 MaxLevel = 2
 DefaultHL = 1
 MaxNodes = 10
 NKeys = 3
 SampleSize = 60
 Mut = {}
 Accept = TRUE
 Scenarios <- SampledScenarios
 Shape <- S211
 OpKinds <- AllAll
 OpKeys = {1,2,3}
 Lvls = {1,2}
 InitKeys = {1,2,3}
INVARIANTS Linearizable NoCrash Sorted Quiet LenNonNegative HlCovers Sublists OneNodePerKey LockOrder HoldsNothing OnlyVictim Linked
PROPERTIES Frozen Monotone TakenStays
CHECK_DEADLOCK TRUE
