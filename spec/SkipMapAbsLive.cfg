SPECIFICATION FairSpec
CONSTANTS
  NKeys = 1
  Ids = {1, 2}
  MaxCalls = 2
  KindsUsed = {"store", "load", "del", "lad", "los", "lazy", "range", "len"}
PROPERTIES CallsComplete
CHECK_DEADLOCK FALSE
