SPECIFICATION Spec
CONSTANTS
  NKeys = 2
  Ids = {1, 2}
  MaxCalls = 3
  KindsUsed = {"store", "load", "del", "lad", "los", "lazy", "range", "len"}
INVARIANTS Observable Conservation LazyDiscipline LenSane LenExactWhenQuiet RangeSees
CHECK_DEADLOCK FALSE
