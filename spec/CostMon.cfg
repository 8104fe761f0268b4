SPECIFICATION Spec
CONSTANTS
 PerLevel = 8
 Base = 60
 Growth = 16
 Slack = 8
 PerKey = 12
 Small = 2048
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
